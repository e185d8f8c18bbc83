PRE = '#include <pdfmm/pdfmm.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C07-action-table": dict(property="C07", needs="an action of type ResetForm or ImportData",
  breaks="the names of two action types are exchanged",
  subs=[(B+"PdfAction.cpp", '    "ResetForm",\n    "ImportData",\n', '    "ImportData",\n    "ResetForm",\n')],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  PdfAction action(doc, PdfActionType::ImportData);
  return action.GetObject().GetDictionary().FindKeyAs<PdfName>("S").GetString() == "ImportData" ? 0 : 1;
}
"""),
"C07-operand-count": dict(property="C07", needs="a content stream with the operator 'sh'",
  breaks="the number of operands of an operator is wrong",
  subs=[(B+"PdfOperatorUtils.cpp", '        case PdfOperator::sh:\n            count = 1;', '        case PdfOperator::sh:\n            count = 0;')],
  demo=PRE + r"""
int main() {
  int count;
  return TryGetOperandCount(PdfOperator::sh, count) && count == 1 ? 0 : 1;
}
"""),
"C07-highlighting": dict(property="C07", needs="a field with the highlighting mode 'InvertOutline'",
  breaks="the highlighting mode read is another one than the one written",
  subs=[(B+"PdfField.cpp", "            return PdfHighlightingMode::InvertOutline;", "            return PdfHighlightingMode::Push;")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& page = doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto& field = page.CreateField("f", PdfFieldType::PushButton, PdfRect(0, 0, 10, 10));
  field.SetHighlightingMode(PdfHighlightingMode::InvertOutline);
  return field.GetHighlightingMode() == PdfHighlightingMode::InvertOutline ? 0 : 1;
}
"""),
}
