PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C20-clear-caption": dict(property="C20", needs="clearing the rollover caption of a widget that also has a caption",
  breaks="clearing the rollover caption removes the caption",
  subs=[(B+"PdfAnnotationActionBase.cpp", 'RemoveKey("RC")', 'RemoveKey("CA")')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto& w = static_cast<PdfAnnotationWidget&>(pg.GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, PdfRect(0, 0, 10, 10)));
  auto& a = w.GetOrCreateAppearanceCharacteristics();
  a.SetCaption(PdfString("c")); a.SetRolloverCaption(PdfString("r")); a.SetRolloverCaption(nullptr);
  return a.GetCaption().has_value() && !a.GetRolloverCaption().has_value() ? 0 : 1;
}
"""),
"C20-overprint": dict(property="C20", needs="overprinting for fills only",
  breaks="overprinting for fills is stored as overprinting for strokes",
  subs=[(B+"PdfExtGState.cpp", 'AddKey("op", PdfVariant(enable))', 'AddKey("OP", PdfVariant(enable))')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; PdfExtGState g(d); g.SetFillOverprint(true);
  auto& k = g.GetObject().GetDictionary();
  return k.HasKey("op") && !k.HasKey("OP") ? 0 : 1;
}
"""),
"C20-form-rect": dict(property="C20", needs="changing the rectangle of a form and asking the same object for it",
  breaks="the rectangle kept by the form is not updated",
  subs=[(B+"PdfXObjectForm.cpp", '''    GetObject().GetDictionary().AddKey("BBox", bbox);
    m_Rect = rect;
''', '''    GetObject().GetDictionary().AddKey("BBox", bbox);
''')],
  demo=PRE + r"""
int main() {
  PdfMemDocument d; auto fp = d.CreateXObjectForm(PdfRect(0, 0, 10, 10)); auto& f = *fp; f.SetRect(PdfRect(0, 0, 20, 30));
  return f.GetRect().GetWidth() == 20 && f.GetRect().GetHeight() == 30 ? 0 : 1;
}
"""),
}
