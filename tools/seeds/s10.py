PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C10-moved-input": dict(property="C10", private=1, needs="moving an open input stream, then opening the stream for writing while the moved handle is alive",
  breaks="the moved-from handle releases the lock of the stream the new handle is still reading",
  subs=[(B+"PdfObjectStream.cpp", '''    utls::move(rhs.m_stream, m_stream);
    m_input = ''', '''    m_stream = rhs.m_stream;
    m_input = ''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& o = d.GetObjects().CreateDictionaryObject(); auto& s = o.GetOrCreateStream();
  s.SetData(bufferview("hello", 5), PdfFilterList());
  unique_ptr<PdfObjectInputStream> keep;
  { PdfObjectInputStream in = s.GetInputStream(); keep.reset(new PdfObjectInputStream(std::move(in))); }
  try { auto out = s.GetOutputStream(); } catch (PdfError&) { return 0; }
  return 1;
}
"""),
"C10-set-data": dict(property="C10", private=1, needs="replacing the data of a stream with explicit filters while it is being read",
  breaks="data is replaced under an open input stream",
  subs=[(B+"PdfObjectStream.cpp", '''void PdfObjectStream::SetData(InputStream& stream, const PdfFilterList& filters)
{
    ensureClosed();
''', '''void PdfObjectStream::SetData(InputStream& stream, const PdfFilterList& filters)
{
''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& o = d.GetObjects().CreateDictionaryObject(); auto& s = o.GetOrCreateStream();
  s.SetData(bufferview("hello", 5), PdfFilterList());
  auto in = s.GetInputStream();
  SpanStreamDevice dev(string_view("world"));
  try { s.SetData(dev, PdfFilterList()); } catch (PdfError&) { return 0; }
  return 1;
}
"""),
"C10-rle-state": dict(property="C10", needs="a filter object decoding truncated data and then other data",
  breaks="the run in progress at the end of one operation continues in the next one",
  subs=[(P+"PdfFiltersPrivate.cpp", '''    m_CodeLen = 0;
}

void PdfRLEFilter''', '''}

void PdfRLEFilter''')],
  demo=PRE + r"""
int main() {
  auto f = PdfFilterFactory::Create(PdfFilterType::RunLengthDecode);
  charbuff a, b;
  try { f->DecodeTo(a, bufferview("\x09" "abc", 4)); } catch (PdfError&) { }
  f->DecodeTo(b, bufferview("\x01" "xy\x80", 4));
  return b.size() == 2 && b[0] == 'x' && b[1] == 'y' ? 0 : 1;
}
"""),
}
