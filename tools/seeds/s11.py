PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\n#include <sstream>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
PRE2 = PRE + r"""
static vector<string> tokens(PdfPage& page) {
  charbuff b; page.GetContents()->CopyTo(b); istringstream in(string(b.data(), b.size())); vector<string> v; string t; while (in >> t) v.push_back(t); return v; }
"""
BUGS = {
"C19-invisible-text": dict(property="C19", needs="DrawText with the invisible rendering mode",
  breaks="the text object stays open when the text would not be visible",
  subs=[(B+"PdfPainter.cpp", '''    writeTextState();
    drawText(str, x, y, false, false);
''', '''    writeTextState();
    if (m_TextState.RenderingMode == PdfTextRenderingMode::Invisible)
        return;
    drawText(str, x, y, false, false);
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto font = d.GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica);
  PdfPainter p; p.SetCanvas(page);
  p.GetTextState().SetFont(*font, 12); p.GetTextState().SetRenderingMode(PdfTextRenderingMode::Invisible);
  p.DrawText("abc", 10, 10); p.FinishDrawing();
  int n = 0; for (auto& t : tokens(page)) { if (t == "BT") n++; if (t == "ET") n--; }
  return n == 0 ? 0 : 1;
}
"""),
"C19-scaled-spacing": dict(property="C19", needs="a font scale other than 1 and a character spacing other than 0",
  breaks="the operator of the font scale is glued to the following number",
  subs=[(B+"PdfPainter.cpp", '''    m_tmpStream << value * 100 << " Tz" << endl;''', '''    m_tmpStream << value * 100 << " Tz";''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto font = d.GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica);
  PdfPainter p; p.SetCanvas(page);
  p.GetTextState().SetFont(*font, 12); p.GetTextState().SetFontScale(0.5); p.GetTextState().SetCharSpacing(2);
  p.DrawText("abc", 10, 10); p.FinishDrawing();
  int n = 0; for (auto& t : tokens(page)) if (t == "Tz" || t == "Tc") n++;
  return n == 2 ? 0 : 1;
}
"""),
"C19-dash-gap": dict(property="C19", needs="the dash-dot-dot stroke style with a scale other than 1 and the cap subtracted",
  breaks="two numbers of the dash array are glued together",
  subs=[(B+"PdfPainter.cpp", '''m_tmpStream << scale * 2.0 << " " << scale * 2.0 << " " << 0 << " " << scale * 2.0 << " " << 0 << " " << scale * 2.0;''', '''m_tmpStream << scale * 2.0 << " " << scale * 2.0 << " " << 0 << " " << scale * 2.0 << 0 << " " << scale * 2.0;''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  PdfPainter p; p.SetCanvas(page);
  p.SetStrokeStyle(PdfStrokeStyle::DashDotDot, "", false, 2.0, true); p.FinishDrawing();
  charbuff b; page.GetContents()->CopyTo(b); string s(b.data(), b.size());
  auto i = s.find('['), j = s.find(']'); istringstream in(s.substr(i + 1, j - i - 1)); int n = 0; string t; while (in >> t) n++;
  return n == 6 ? 0 : 1;
}
"""),
"C19-lab-stroke": dict(property="C19", needs="stroking with a CIE-Lab colour",
  breaks="SCN is written with two components where the Lab colour space prescribes three",
  subs=[(B+"PdfPainter.cpp", '''            m_tmpStream << "/ColorSpaceCieLab" << " CS "
                << color.GetCieL() << " "
                << color.GetCieA() << " "
''', '''            m_tmpStream << "/ColorSpaceCieLab" << " CS "
                << color.GetCieA() << " "
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  PdfPainter p; p.SetCanvas(page);
  p.GetGraphicsState().SetStrokeColor(PdfColor::CreateCieLab(20, 10, 5)); p.FinishDrawing();
  auto v = tokens(page); for (size_t i = 0; i < v.size(); i++) if (v[i] == "SCN") return i >= 4 && v[i - 4] == "CS" ? 0 : 1;
  return 1;
}
"""),
}
