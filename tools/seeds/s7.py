PRE = '#include <pdfmm/pdfmm.h>\n#include <set>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C24-color-table": dict(property="C24", needs="the color names that come next to the misplaced entries",
  breaks="the table of color names is not sorted at one place",
  subs=[(B+"PdfColor.cpp", '    PdfNamedColor( "lightgreen",    "#90EE90" ) ,\n', ''),
        (B+"PdfColor.cpp", '    PdfNamedColor( "lightpink",     "#FFB6C1" ) ,\n', '    PdfNamedColor( "lightpink",     "#FFB6C1" ) ,\n    PdfNamedColor( "lightgreen",    "#90EE90" ) ,\n')],
  demo=PRE + r"""
int main() {
  for (auto n : { "lightgreen", "lightgrey", "lightgray", "lightpink", "lightsalmon" })
    if (!PdfColor::FromString(n).IsRGB()) return 1;
  return 0;
}
"""),
"C24-reference-generation": dict(property="C24", needs="two references to the same object number with different generations used as keys",
  breaks="the ordering of references ignores the generation number",
  subs=[(B+"PdfReference.cpp", 'return m_ObjectNo == rhs.m_ObjectNo ? m_GenerationNo < rhs.m_GenerationNo : m_ObjectNo < rhs.m_ObjectNo;', 'return m_ObjectNo < rhs.m_ObjectNo;')],
  demo=PRE + r"""
int main() { set<PdfReference> s; s.insert(PdfReference(7, 0)); s.insert(PdfReference(7, 3)); return s.size() == 2 ? 0 : 1; }
"""),
"C24-free-list": dict(property="C24", needs="objects removed in descending order, then one removed twice or a new object created",
  breaks="the list of free numbers is searched by bisection but not sorted",
  subs=[(B+"PdfIndirectObjectList.cpp", 'm_FreeObjects.insert(it.first, reference);', 'm_FreeObjects.push_back(reference);')],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& objs = doc.GetObjects();
  vector<PdfReference> refs;
  for (int i = 0; i < 6; i++) refs.push_back(objs.CreateDictionaryObject().GetIndirectReference());
  objs.SetCanReuseObjectNumbers(true);
  objs.RemoveObject(refs[4]); objs.RemoveObject(refs[1]); objs.RemoveObject(refs[3]);
  uint32_t last = 0;
  for (auto& ref : objs.GetFreeObjects()) { if (ref.ObjectNumber() <= last) return 1; last = ref.ObjectNumber(); }
  return 0;
}
"""),
}
