PRE = '#include <pdfmm/pdfmm.h>\n#include <unistd.h>\n#include <sstream>\nusing namespace mm; using namespace std;\n'
B = "src/pdfmm/base/"; P = "src/pdfmm/private/"
PRE2 = PRE + r"""
static string save(PdfMemDocument& d, PdfSaveOptions o = PdfSaveOptions::None) { charbuff b; StringStreamDevice dev(b); d.Save(dev, o); return string(b.data(), b.size()); }
// every entry in use of the last section points to "N G obj"
static bool exact(const string& s) {
  size_t x = stoul(s.substr(s.rfind("startxref") + 10)); if (s.compare(x, 5, "xref\n") != 0) return false;
  istringstream in(s.substr(x + 5)); string a, b; 
  while (in >> a && a != "trailer") { in >> b; unsigned first = stoul(a), n = stoul(b);
    for (unsigned i = 0; i < n; i++) { string off, gen, kind; in >> off >> gen >> kind; if (kind != "n") continue;
      string want = to_string(first + i) + " " + to_string(stoul(gen)) + " obj"; size_t o = stoul(off);
      if (o >= s.size() || s.compare(o, want.size(), want) != 0) return false; } }
  return true; }
"""
BUGS = {
"C11-clean-newline": dict(property="C11", needs="saving with the Clean option",
  breaks="a line feed is written between taking the position and the object, so all offsets are one too small",
  subs=[(B+"PdfWriter.cpp", '''            xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition());
''', '''            auto position = device.GetPosition();
            if ((m_WriteFlags & PdfWriteFlags::Clean) != PdfWriteFlags::None)
                device.Write('\\n');

            xref.AddInUseObject(obj->GetIndirectReference(), position);
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  return exact(save(d, PdfSaveOptions::Clean)) ? 0 : 1;
}
"""),
"C11-update-encrypted": dict(property="C11", needs="an incremental update of an encrypted document",
  breaks="the update is written over the beginning of the existing file",
  subs=[(B+"PdfMemDocument.cpp", '''        device.Seek(0, SeekDirection::End);
        writer.Write(device);
''', '''        if (m_Encrypt == nullptr)
            device.Seek(0, SeekDirection::End);

        writer.Write(device);
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  d.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128);
  string b = save(d);
  PdfMemDocument e; e.LoadFromBuffer(b, "user");
  e.GetCatalog().GetDictionary().AddKey("Test", PdfObject(static_cast<int64_t>(1)));
  charbuff u; u.assign(b.data(), b.data() + b.size()); StringStreamDevice dev(u); dev.Seek(0, SeekDirection::Begin);
  e.SaveUpdate(dev);
  return u.size() > b.size() && string(u.data(), b.size()) == b ? 0 : 1;
}
"""),
"C11-generation": dict(property="C11", needs="an object whose number was used before, so that its generation is not zero",
  breaks="the cross-reference entry has generation zero while the object is written with its own",
  subs=[(B+"PdfXRef.cpp", '''PdfXRefEntry::CreateInUse(itItems->Offset, itItems->Reference.GenerationNumber()), buffer);''', '''PdfXRefEntry::CreateInUse(itItems->Offset, 0), buffer);''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto ref = d.GetObjects().CreateDictionaryObject().GetIndirectReference();
  d.GetObjects().RemoveObject(ref);
  auto& o = d.GetObjects().CreateDictionaryObject();
  if (o.GetIndirectReference().GenerationNumber() == 0) return 0;
  d.GetCatalog().GetDictionary().AddKeyIndirect("Test", o);
  return exact(save(d)) ? 0 : 1;
}
"""),
"C11-null-object": dict(property="C11", needs="an indirect object that is null",
  breaks="the object is not written, but its entry is in use with an offset beyond the end of the file",
  subs=[(B+"PdfWriter.cpp", '''        if (xref.ShouldSkipWrite(obj->GetIndirectReference()))
''', '''        if (obj->IsNull() || xref.ShouldSkipWrite(obj->GetIndirectReference()))
''')],
  demo=PRE2 + r"""
int main() {
  PdfMemDocument d; d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
  auto& o = d.GetObjects().CreateObject(PdfObject(PdfVariant()));
  d.GetCatalog().GetDictionary().AddKeyIndirect("Test", o);
  return exact(save(d, PdfSaveOptions::NoCollectGarbage)) ? 0 : 1;
}
"""),
}
