PRE = '#include <pdfmm/pdfmm.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C08-mac-expert": dict(property="C08", needs="a font with the encoding MacExpertEncoding showing the character 0x2A",
  breaks="one entry of a predefined encoding is wrong",
  subs=[(B+"PdfPredefinedEncoding.cpp", '            0x207D, 0x207E, 0x2025,', '            0x207E, 0x207D, 0x2025,')],
  demo=PRE + r"""
int main() {
  vector<char32_t> cps;
  return PdfEncodingMapFactory::MacExpertEncodingInstance()->TryGetCodePoints(PdfCharCode(0x28), cps) && cps.size() == 1 && cps[0] == 0x207D ? 0 : 1;
}
"""),
"C08-symbol": dict(property="C08", needs="text shown with the font Symbol using the capital theta",
  breaks="two entries of a predefined encoding are exchanged",
  subs=[(B+"PdfPredefinedEncoding.cpp", "        0x0398,  // 51   # GREEK CAPITAL LETTER THETA   # Theta", "        0x03D1,  // 51   # GREEK CAPITAL LETTER THETA   # Theta"),
        (B+"PdfPredefinedEncoding.cpp", "        0x03D1,  // 4A   # GREEK THETA SYMBOL   # theta1", "        0x0398,  // 4A   # GREEK THETA SYMBOL   # theta1")],
  demo=PRE + r"""
int main() {
  vector<char32_t> cps;
  auto map = PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::Symbol);
  return map->TryGetCodePoints(PdfCharCode(0x51), cps) && cps.size() == 1 && cps[0] == 0x0398 ? 0 : 1;
}
"""),
"C08-delimiter": dict(property="C08", needs="a token directly followed by a closing brace",
  breaks="the closing brace is not a delimiter",
  subs=[(B+"PdfTokenizer.cpp", "        case '{':\n            return true;\n        case '}':\n            return true;\n", "        case '{':\n            return true;\n")],
  demo=PRE + r"""
int main() { return PdfTokenizer::IsDelimiter('}') && !PdfTokenizer::IsRegular('}') ? 0 : 1; }
"""),
}
