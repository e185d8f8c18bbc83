PRE = r'''
#include <pdfmm/pdfmm.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <locale>
using namespace mm; using namespace std;
'''
BUGS = {
"C01-xobject-subtype": dict(property="C01", needs="a document with an XObject dictionary that has no /Subtype",
  breaks="PdfXObject dereferences the missing /Subtype: null pointer dereference",
  subs=[("src/pdfmm/base/PdfXObject.cpp", "    if (subTypeObj == nullptr || !subTypeObj->TryGetName(name))\n        return PdfXObjectType::Unknown;", "    if (!subTypeObj->TryGetName(name))\n        return PdfXObjectType::Unknown;")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& o = doc.GetObjects().CreateDictionaryObject("XObject");
  unique_ptr<PdfXObject> x;
  return PdfXObject::TryCreateFromObject(o, x) ? 1 : 0;
}
"""),
"C12-stringstream-locale": dict(property="C12", needs="a process whose global C++ locale groups digits, and integers of four or more digits written to a content stream",
  breaks="numbers written to content streams follow the global locale (1,234 instead of 1234)",
  subs=[("src/pdfmm/base/PdfStringStream.cpp", "    m_stream->imbue(utls::GetInvariantLocale());\n", "")],
  demo=PRE + r'''
struct np : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } };
int main() {
  std::locale::global(std::locale(std::locale::classic(), new np));
  PdfStringStream s; s << 1234567;
  return string(s.GetString()) == "1234567" ? 0 : 1;
}
'''),
"C13-recursion-depth": dict(property="C13", needs="two threads that parse deeply nested arrays at the same time", 
  breaks="the recursion depth counter becomes shared by all threads: independent parsers fail with a recursion limit error (and race)",
  subs=[("src/pdfmm/private/PdfDeclarationsPrivate.cpp", "thread_local unsigned s_recursionDepth = 0;", "unsigned s_recursionDepth = 0;")],
  demo=PRE + r'''
#include <thread>
#include <mutex>
#include <condition_variable>
static std::mutex m; static std::condition_variable cv; static int waiting = 0;
struct Buf : std::streambuf {
  std::string a, b; int step = 0;
  Buf() : a(200, '['), b(200, ']') { a += " "; }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (step == 0) { step = 1; setg(&a[0], &a[0], &a[0] + a.size()); }
    else if (step == 1) {
      step = 2;
      std::unique_lock<std::mutex> l(m); waiting++; cv.notify_all();
      cv.wait_for(l, std::chrono::seconds(10), [] { return waiting >= 2; });
      setg(&b[0], &b[0], &b[0] + b.size());
    } else return traits_type::eof();
    return traits_type::to_int_type(*gptr());
  }
};
static int fail = 0;
static void run() {
  Buf buf; std::istream is(&buf);
  try {
    StandardStreamDevice dev(is);
    PdfTokenizer tok; PdfVariant var;
    tok.ReadNextVariant(dev, var);
    if (!var.IsArray()) fail = 1;
  } catch (PdfError& e) { fail = 1; { std::lock_guard<std::mutex> l(m); waiting += 2; } cv.notify_all(); }
}
int main() { std::thread t1(run), t2(run); t1.join(); t2.join(); return fail; }
'''),
"C14-variant-stack": dict(property="C14", needs="an operator in a content stream that has fewer operands than its index asks for",
  breaks="PdfVariantStack::operator[] lets std::out_of_range escape instead of PdfError",
  subs=[("src/pdfmm/base/PdfVariantStack.cpp", '    if (index >= m_variants.size())\n        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Index {} is out of range", index);\n\n    return m_variants[index];', '    return m_variants.at(index);')], demo=PRE + r"""
int main() {
  PdfVariantStack st; st.Push(PdfVariant((int64_t)1));
  try { st[3]; return 2; } catch (PdfError&) { return 0; } catch (std::exception&) { return 1; }
}
"""),
"C16-aes-final": dict(property="C16", needs="AES encrypted data whose padding is corrupted",
  breaks="the failure of EVP_DecryptFinal_ex is ignored: corrupted data is returned as if it were decrypted",
  subs=[("src/pdfmm/base/PdfEncrypt.cpp", '    outLen += dataOutMoved;\n    if (rc != 1)\n        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data final");', '    outLen += dataOutMoved;')],
  demo=PRE + r'''
int main() {
  auto enc = PdfEncrypt::Create("user", "owner", PdfPermissions::Print, PdfEncryptAlgorithm::AESV2);
  auto id = PdfString::FromRaw("0123456789012345");
  enc->GenerateEncryptionKey(id);
  PdfReference ref(1, 0);
  charbuff out, back; std::string data(40, 'x');
  enc->EncryptTo(out, data, ref);
  enc->DecryptTo(back, out, ref);
  if (string(back.data(), back.size()) != data) return 2;
  int silent = 0;
  for (int i = 0; i < 64; i++) {
    charbuff bad = out; bad[bad.size() - 17] ^= 0x40 + i; // flips bits of the last padding byte
    charbuff res;
    try { enc->DecryptTo(res, bad, ref); silent++; } catch (PdfError&) {}
  }
  return silent > 1 ? 1 : 0; 
}
'''),
"C17-font-leading": dict(property="C17", needs="a Type3 or simple font without a FontDescriptor, allocated in memory that is not zero",
  breaks="PdfFontMetricsObject::m_Leading stays uninitialised, the line spacing of the font is garbage",
  subs=[("src/pdfmm/base/PdfFontMetricsObject.cpp", "        m_Leading = -1;\n        m_CapHeight = 0;", "        m_CapHeight = 0;")],
  demo=r'''
#include <cstdlib>
#include <cstring>
#include <new>
static unsigned char fillc = 0;
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); memset(p, fillc, n); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
''' + PRE + r'''
static double get(unsigned char f) {
  PdfMemDocument doc;
  auto& fo = doc.GetObjects().CreateDictionaryObject("Font");
  auto& d = fo.GetDictionary();
  d.AddKey("Subtype", PdfName("Type3")); d.AddKey("Name", PdfName("Foo"));
  PdfArray fm; for (double v : {0.001, 0.0, 0.0, 0.001, 0.0, 0.0}) fm.Add(PdfObject(PdfVariant(v)));
  d.AddKey("FontMatrix", fm); d.AddKey("CharProcs", PdfDictionary());
  d.AddKey("FirstChar", PdfVariant((int64_t)32)); d.AddKey("LastChar", PdfVariant((int64_t)33));
  PdfArray w; w.Add(PdfObject(PdfVariant((int64_t)500))); w.Add(PdfObject(PdfVariant((int64_t)500)));
  d.AddKey("Widths", w); d.AddKey("Encoding", PdfName("WinAnsiEncoding"));
  fillc = f;
  auto font = doc.GetFonts().GetLoadedFont(fo);
  fillc = 0;
  if (font == nullptr) return -12345;
  return font->GetMetrics().GetLeadingRaw();
}
int main() {
  double a = get(0x11), b = get(0x33);
  return memcmp(&a, &b, sizeof a) ? 1 : 0;
}
'''),
}
