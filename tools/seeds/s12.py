PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\n#include <sstream>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
PRE2 = PRE + r"""
static charbuff save(PdfMemDocument& d) { charbuff b; StringStreamDevice dev(b); d.Save(dev); return b; }
static const char* SECRET = "TopSecretText0123456789";
"""
BUGS = {
"C03-array-in-array": dict(property="C03", needs="a string inside an array inside an array of an encrypted document",
  breaks="arrays directly inside arrays are written in clear",
  subs=[(B+"PdfArray.cpp", '''        it->GetVariant().Write(device, writeMode, encrypt, buffer);
''', '''        it->GetVariant().Write(device, writeMode, it->IsArray() ? PdfStatefulEncrypt() : encrypt, buffer);
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  PdfArray in; in.Add(PdfString(SECRET)); PdfArray out; out.Add(in);
  d.GetCatalog().GetDictionary().AddKey("Test", out);
  d.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128);
  auto b = save(d);
  return string(b.data(), b.size()).find(SECRET) == string::npos ? 0 : 1;
}
"""),
"C03-hex-string": dict(property="C03", needs="a string that is written in hexadecimal form in an encrypted document",
  breaks="hexadecimal strings are written without encryption",
  subs=[(B+"PdfString.cpp", '''    if (encrypt.HasEncrypt() && dataview.size() > 0)''', '''    if (encrypt.HasEncrypt() && dataview.size() > 0 && !m_isHex)''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  d.GetCatalog().GetDictionary().AddKey("Test", PdfString::FromRaw(string_view(SECRET), true));
  d.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128);
  auto b = save(d);
  PdfMemDocument e; e.LoadFromBuffer(bufferview(b.data(), b.size()), "user");
  auto& s = e.GetCatalog().GetDictionary().MustFindKey("Test").GetString();
  return s.GetRawData() == SECRET ? 0 : 1;
}
"""),
"C03-generation": dict(property="C03", needs="an object with a generation number other than zero, encrypted with AESV2",
  breaks="strings are encrypted with the key of generation zero, but decrypted with the key of the object",
  subs=[(B+"PdfEncrypt.cpp", '''    CreateObjKey(objkey, keylen, objref);
    size_t offset = CalculateStreamOffset();
    this->Gen''', '''    CreateObjKey(objkey, keylen, PdfReference(objref.ObjectNumber(), 0));
    size_t offset = CalculateStreamOffset();
    this->Gen''')],
  demo=PRE2 + r"""
int main() {
  auto e = PdfEncrypt::Create("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128);
  e->GenerateEncryptionKey(PdfString::FromRaw("0123456789abcdef"));
  charbuff c, p; PdfReference ref(5, 3);
  e->EncryptTo(c, bufferview(SECRET, 23), ref);
  try { e->DecryptTo(p, bufferview(c.data(), c.size()), ref); } catch (PdfError&) { return 1; }
  return string(p.data(), p.size()) == SECRET ? 0 : 1;
}
"""),
"C03-update-clear": dict(property="C03", needs="an incremental update of an encrypted document with the Clean option",
  breaks="the update is written without encryption",
  subs=[(B+"PdfMemDocument.cpp", '''    writer.SetIncrementalUpdate(false);

    if (m_Encrypt != nullptr)
        writer.SetEncrypt(*m_Encrypt);
''', '''    writer.SetIncrementalUpdate(false);

    if (m_Encrypt != nullptr && (opts & PdfSaveOptions::Clean) == PdfSaveOptions::None)
        writer.SetEncrypt(*m_Encrypt);
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  d.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128);
  auto b = save(d);
  PdfMemDocument e; e.LoadFromBuffer(bufferview(b.data(), b.size()), "user");
  e.GetCatalog().GetDictionary().AddKey("Test", PdfString(SECRET));
  charbuff u(string_view(b.data(), b.size())); StringStreamDevice dev(u); e.SaveUpdate(dev, PdfSaveOptions::Clean);
  return string(u.data(), u.size()).find(SECRET) == string::npos ? 0 : 1;
}
"""),
}
