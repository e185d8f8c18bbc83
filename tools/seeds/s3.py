PRE = '#include <pdfmm/pdfmm.h>\n#include <chrono>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"
BUGS = {
"C09-date-inequality": dict(property="C09", needs="two dates for the same instant, one with and one without a time zone offset",
  breaks="two different dates are neither equal nor unequal",
  subs=[(B+"PdfDate.cpp", "    return m_MinutesFromUtc != rhs.m_MinutesFromUtc || m_SecondsFromEpoch != rhs.m_SecondsFromEpoch;", "    return m_SecondsFromEpoch != rhs.m_SecondsFromEpoch;")],
  demo=PRE + r"""
int main() {
  PdfDate a(chrono::seconds(1000), nullable<chrono::minutes>(chrono::minutes(60)));
  PdfDate b(chrono::seconds(1000), nullable<chrono::minutes>(chrono::minutes(120)));
  return (a == b) != (a != b) && a != b ? 0 : 1;
}
"""),
"C09-color-density": dict(property="C09", needs="comparing two separation colours that differ only in their density",
  breaks="two different separation colours compare equal",
  subs=[(B+"PdfColor.cpp", "    return m_IsTransparent == rhs.m_IsTransparent\n        && m_ColorSpace == rhs.m_ColorSpace\n        && std::memcmp(&m_Color, &rhs.m_Color, sizeof(Color)) == 0\n        && m_SeparationName == rhs.m_SeparationName\n        && m_SeparationDensity == rhs.m_SeparationDensity\n", "    return m_IsTransparent == rhs.m_IsTransparent\n        && m_ColorSpace == rhs.m_ColorSpace\n        && std::memcmp(&m_Color, &rhs.m_Color, sizeof(Color)) == 0\n        && m_SeparationName == rhs.m_SeparationName\n")],
  demo=PRE + r"""
int main() {
  PdfColor alt(0.1, 0.2, 0.3, 0.4);
  auto a = PdfColor::CreateSeparation("Spot", 0.25, alt);
  auto b = PdfColor::CreateSeparation("Spot", 0.75, alt);
  return !(a == b) && a != b ? 0 : 1;
}
"""),
"C09-string-copy-hex": dict(property="C09", needs="copying a string that is to be written in hexadecimal form",
  breaks="a copied string loses the form in which it is to be written",
  subs=[(B+"PdfString.cpp", "    this->m_isHex = rhs.m_isHex;\n", "    if (rhs.m_data->Chars.empty())\n        this->m_isHex = rhs.m_isHex;\n")],
  demo=PRE + r"""
int main() {
  PdfString s = PdfString::FromHexData("0A0B0C");
  PdfString t("other");
  t = s;
  return t.IsHex() ? 0 : 1;
}
"""),
}
