PRE = '#include <pdfmm/pdfmm.h>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
BUGS = {
"C18-encoding-map": dict(property="C18", needs="text whose character codes are above 127, decoded with a one byte encoding",
  breaks="codes with the high bit set are sign-extended and found in no encoding",
  subs=[(B+"PdfEncodingMap.cpp", "        code |= (uint8_t)*curr;", "        code |= *curr;")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& obj = doc.GetObjects().CreateDictionaryObject();
  string cmap = "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n1 begincodespacerange\n<00> <FF>\nendcodespacerange\n"
    "1 beginbfchar\n<C4> <0041>\nendbfchar\nendcmap\n";
  obj.GetOrCreateStream().SetData(cmap);
  auto map = PdfCMapEncoding::CreateFromObject(obj);
  vector<char32_t> cps;
  PdfCharCode unit;
  string_view text = "\xC4";
  auto it = text.begin();
  return map->TryGetNextCodePoints(it, text.end(), cps) && cps.size() == 1 && cps[0] == 0x41 ? 0 : 1;
}
"""),
"C18-cmap-code": dict(property="C18", needs="a CMap that maps codes with bytes above 127",
  breaks="the codes of a CMap are computed with signed bytes",
  subs=[(B+"PdfCMapEncoding.cpp", "        uint8_t code = (uint8_t)rawstr[len - 1 - i];", "        int code = rawstr[len - 1 - i];")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& obj = doc.GetObjects().CreateDictionaryObject();
  string cmap = "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n1 begincodespacerange\n<0000> <FFFF>\nendcodespacerange\n"
    "1 beginbfchar\n<8182> <0041>\nendbfchar\nendcmap\n";
  obj.GetOrCreateStream().SetData(cmap);
  auto map = PdfCMapEncoding::CreateFromObject(obj);
  vector<char32_t> cps;
  return map->TryGetCodePoints(PdfCharCode(0x8182, 2), cps) && cps.size() == 1 && cps[0] == 0x41 ? 0 : 1;
}
"""),
"C26-open-part": dict(property="C26", needs="a file name passed as a part of a longer text",
  breaks="the file name is taken up to a terminating zero",
  subs=[(P+"PdfDeclarationsPrivate.cpp", "    return fstream((string)filename, mode);", "    return fstream(filename.data(), mode);")],
  demo=PRE + r"""
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
int main() {
  char dir[] = "/tmp/c26XXXXXX";
  if (!mkdtemp(dir)) return 2;
  string path = string(dir) + "/a.txt", longer = path + ".more";
  { ofstream o(path); o << "x"; }
  int rc = 1;
  try { FileStreamDevice dev(string_view(longer).substr(0, path.size()), FileMode::Open); char c = 0; dev.Read(&c, 1); rc = c == 'x' ? 0 : 1; } catch (PdfError&) {}
  unlink(path.c_str()); unlink(longer.c_str()); rmdir(dir);
  return rc;
}
"""),
"C26-separation-name": dict(property="C26", needs="a colour name passed as a part of a longer text",
  breaks="the name of a separation colour is taken up to a terminating zero",
  subs=[(B+"PdfColor.cpp", "    return PdfColor(false, PdfColorSpace::Separation, color, (string)name, density, alternateColor.GetColorSpace());", "    return PdfColor(false, PdfColorSpace::Separation, color, name.data(), density, alternateColor.GetColorSpace());")],
  demo=PRE + r"""
int main() {
  string text = "SpotColour";
  auto c = PdfColor::CreateSeparation(string_view(text).substr(0, 4), 0.5, PdfColor(0.1, 0.2, 0.3, 0.4));
  return string(c.GetName()) == "Spot" ? 0 : 1;
}
"""),
}
