PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\n#include <set>\n#include <sys/resource.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C02-parent-chain": dict(property="C02", needs="a page whose /Parent chain runs in a circle through nodes without /Kids",
  breaks="the bound on the parent chain does not count all nodes",
  subs=[(B+"PdfPage.cpp", '''        depth++;

        if (depth''', '''        if (kidsObj != nullptr)
            depth++;

        if (depth''')],
  demo=PRE + r"""
int main() {
  alarm(30);
  PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto& a = d.GetObjects().CreateDictionaryObject(); auto& b = d.GetObjects().CreateDictionaryObject();
  a.GetDictionary().AddKey("Parent", b.GetIndirectReference()); b.GetDictionary().AddKey("Parent", a.GetIndirectReference());
  pg.GetDictionary().AddKey("Parent", a.GetIndirectReference());
  try { pg.GetPageNumber(); } catch (PdfError&) { return 0; }
  return 1;
}
"""),
"C21-annots-array": dict(property="C21", needs="asking a page without annotations for its number of annotations, then saving incrementally or looking at the page dictionary",
  breaks="counting annotations adds an empty /Annots to the page",
  subs=[(B+"PdfAnnotationCollection.cpp", '''    m_annotArray = getAnnotationsArray();
    if (m_annotArray == nullptr)
        return;
''', '''    m_annotArray = getAnnotationsArray();
    if (m_annotArray == nullptr)
    {
        m_annotArray = &m_Page->GetDictionary().AddKey("Annots", PdfArray()).GetArray();
        return;
    }
''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  const PdfPage& p = pg;
  p.GetAnnotations().GetCount();
  return pg.GetDictionary().HasKey("Annots") ? 1 : 0;
}
"""),
"C21-nametree-lookup": dict(property="C21", needs="looking up a name in a category of the name tree that does not exist",
  breaks="the lookup creates the category",
  subs=[(B+"PdfNameTree.cpp", '''    auto obj = this->GetRootNode(tree);
    PdfObject* result''', '''    auto obj = this->GetRootNode(tree, true);
    PdfObject* result''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& n = d.GetOrCreateNameTree();
  unsigned before = d.GetObjects().GetSize();
  try { n.HasValue("EmbeddedFiles", PdfString("x")); } catch (PdfError&) { }
  return d.GetObjects().GetSize() == before && !n.GetObject().GetDictionary().HasKey("EmbeddedFiles") ? 0 : 1;
}
"""),
"C21-page-rotation": dict(property="C21", needs="asking for the rotation of a page that stores a negative angle",
  breaks="asking for the page rotation normalises the stored value",
  subs=[(B+"PdfPage.cpp", '''        rot = static_cast<int>(obj->GetNumber());

    return rot;''', '''        rot = static_cast<int>(obj->GetNumber());

    if (rot < 0)
    {
        // Normalize the value
        rot = 360 + rot % 360;
        const_cast<PdfObject*>(obj)->SetNumber(rot);
    }

    return rot;''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  pg.GetDictionary().AddKey("Rotate", PdfObject((int64_t)-90));
  const PdfPage& p = pg;
  p.GetRotationRaw();
  return pg.GetDictionary().MustFindKey("Rotate").GetNumber() == -90 ? 0 : 1;
}
"""),
}
