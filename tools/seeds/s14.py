PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\n#include <cstdlib>\n#include <cstring>\n#include <malloc.h>\nusing namespace mm; using namespace std;\n'
# released memory gets a pattern, in the demonstration program only
POISON = PRE + r"""
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
static void wipe(void* p) { if (p == nullptr) return; volatile unsigned char* c = (unsigned char*)p; size_t n = malloc_usable_size(p); for (size_t i = 0; i < n; i++) c[i] = 0xDD; free(p); }
void operator delete(void* p) noexcept { wipe(p); }
void operator delete[](void* p) noexcept { wipe(p); }
void operator delete(void* p, size_t) noexcept { wipe(p); }
void operator delete[](void* p, size_t) noexcept { wipe(p); }
"""
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C25-remove-object": dict(property="C25", needs="removing an indirect object, with the memory of the released list node reused or overwritten",
  breaks="the pointer to the removed object is read from the node of the set after the node was released",
  subs=[(B+"PdfIndirectObjectList.cpp", '''    auto obj = *it;
    if (m_objectStreams''', '''    auto& obj = *it;
    if (m_objectStreams''')],
  demo=POISON + r"""
int main() {
  PdfMemDocument d; auto& o = d.GetObjects().CreateDictionaryObject(); auto* p = &o;
  auto r = d.GetObjects().RemoveObject(o.GetIndirectReference());
  bool same = r.get() == p; if (!same) { (void)r.release(); return 1; }
  return 0;
}
"""),
"C25-field-index": dict(property="C25", needs="removing a form field by reference that is not the last one",
  breaks="the index is read from the map's element after it was erased, so that the other indices are not updated",
  subs=[(B+"PdfAcroForm.cpp", '''    unsigned index = found->second;
    m_Fields.erase(m_Fields.begin() + index);
    m_fieldArray->RemoveAt(index);
    m_fieldMap->erase(found);
    fixIndices(index);
''', '''    m_Fields.erase(m_Fields.begin() + found->second);
    m_fieldArray->RemoveAt(found->second);
    m_fieldMap->erase(found);
    fixIndices(found->second);
''')],
  demo=POISON + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); (void)page;
  auto& form = d.GetOrCreateAcroForm();
  auto& a = form.CreateField<PdfTextBox>("a"); auto& b = form.CreateField<PdfTextBox>("b"); auto& c = form.CreateField<PdfTextBox>("c");
  auto ra = a.GetObject().GetIndirectReference(); auto rb = b.GetObject().GetIndirectReference(); auto rc = c.GetObject().GetIndirectReference();
  (void)rb; form.RemoveField(ra);
  try { auto& f = form.GetField(rc); return f.GetObject().GetIndirectReference() == rc ? 0 : 1; } catch (...) { return 1; }
}
"""),
"C25-charmap-limits": dict(property="C25", needs="a mapping of one code to several code points (a ligature)",
  breaks="the code points are read after they were moved into the map, so the range of codes is never extended for them",
  subs=[(B+"PdfCharCodeMap.cpp", '''    if (codeUnit.Code > m_Limits.LastChar.Code)
        m_Limits.LastChar = codeUnit;
''', '''    if (codeUnit.Code > m_Limits.LastChar.Code && codePoints.size() != 0)
        m_Limits.LastChar = codeUnit;
''')],
  demo=PRE + r"""
int main() {
  PdfCharCodeMap m; vector<codepoint> lig{ 'f', 'f' };
  m.PushMapping(PdfCharCode(65, 1), (codepoint)'A'); m.PushMapping(PdfCharCode(200, 1), codepointview(lig));
  return m.GetLimits().LastChar.Code == 200 ? 0 : 1;
}
"""),
"C25-inline-image": dict(property="C25", private=1, needs="an inline image with a filter in a content stream",
  breaks="the value of a key is looked at after it was moved into the dictionary of the image",
  subs=[(B+"PdfContentsReader.cpp", '''            content.InlineImageDictionary.AddKey(m_temp.Name, std::move(m_temp.Variant));
        else
''', '''        {
            content.InlineImageDictionary.AddKey(m_temp.Name, std::move(m_temp.Variant));
            if (m_temp.Name == "W" && !m_temp.Variant.IsNumber())
                content.Warnings |= PdfContentWarnings::InvalidImageDictionaryContent;
        }
        else
''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  page.GetOrCreateContents().GetStreamForAppending((PdfStreamAppendFlags)0).SetData(bufferview(string_view("BI /W 1 /H 1 /BPC 8 /CS /G ID x EI ")));
  PdfContentsReader r(page); PdfContent c; bool any = false;
  while (r.TryReadNext(c)) { if (c.Warnings != PdfContentWarnings::None) any = true; }
  return any ? 1 : 0;
}
"""),
}
