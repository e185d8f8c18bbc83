PRE = r'''
#include <pdfmm/pdfmm.h>
#include <cstdio>
#include <cstdlib>
#include <string>
using namespace mm; using namespace std;
static string load_save(const string& pdf) { return pdf; }
'''
BUGS = {
"C04-removeat-last": dict(property="C04", needs="removing the only element of an array of a loaded document, then an incremental save",
  breaks="removing the last remaining element of an array does not mark the object: the incremental update leaves the element in place",
  subs=[("src/pdfmm/base/PdfArray.cpp", "    m_Objects.erase(m_Objects.begin() + idx);\n    SetDirty();", "    m_Objects.erase(m_Objects.begin() + idx);\n    if (!m_Objects.empty())\n        SetDirty();")],
  demo=PRE + r"""
int main() {
  PdfReference ref;
  { PdfMemDocument doc; doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    PdfArray a; a.Add(PdfObject(int64_t(7)));
    auto& o = doc.GetObjects().CreateObject(PdfObject(a)); doc.GetCatalog().GetDictionary().AddKey("XArr", o.GetIndirectReference()); ref = o.GetIndirectReference();
    doc.Save("a.pdf", PdfSaveOptions::NoCollectGarbage); }
  { PdfMemDocument doc; doc.Load("a.pdf"); doc.GetObjects().MustGetObject(ref).GetArray().RemoveAt(0); doc.SaveUpdate("a.pdf"); }
  PdfMemDocument doc; doc.Load("a.pdf");
  return doc.GetObjects().MustGetObject(ref).GetArray().size() == 0 ? 0 : 1;
}
"""),
"C04-incremental-null": dict(property="C04", needs="replacing an object of a loaded document by null, then an incremental save",
  breaks="the incremental save leaves out modified objects whose new value is null",
  subs=[("src/pdfmm/base/PdfWriter.cpp", "        if (m_IncrementalUpdate && !obj->IsDirty())", "        if (m_IncrementalUpdate && (!obj->IsDirty() || obj->IsNull()))")],
  demo=PRE + r"""
int main() {
  PdfReference ref;
  { PdfMemDocument doc; doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    auto& o = doc.GetObjects().CreateObject(PdfObject(int64_t(7))); doc.GetCatalog().GetDictionary().AddKey("XNum", o.GetIndirectReference()); ref = o.GetIndirectReference();
    doc.Save("a.pdf", PdfSaveOptions::NoCollectGarbage); }
  { PdfMemDocument doc; doc.Load("a.pdf"); doc.GetObjects().MustGetObject(ref) = PdfObject(PdfVariant()); doc.SaveUpdate("a.pdf"); }
  PdfMemDocument doc; doc.Load("a.pdf");
  return doc.GetObjects().MustGetObject(ref).IsNull() ? 0 : 1;
}
"""),
"C05-setreal": dict(property="C05", needs="an indirect object of a loaded document whose very first use is setting its real value",
  breaks="SetReal on an object not loaded yet fails (or is overwritten when the object is loaded later)",
  subs=[("src/pdfmm/base/PdfObject.cpp", "    DelayedLoad();\n    m_Variant.SetReal(d);", "    m_Variant.SetReal(d);")],
  demo=PRE + r"""
int main() {
  PdfReference ref;
  { PdfMemDocument doc; doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    auto& o = doc.GetObjects().CreateObject(PdfObject(1.5)); doc.GetCatalog().GetDictionary().AddKey("XNum", o.GetIndirectReference()); ref = o.GetIndirectReference();
    doc.Save("a.pdf", PdfSaveOptions::NoCollectGarbage); }
  PdfMemDocument doc; doc.Load("a.pdf");
  try { auto& o = doc.GetObjects().MustGetObject(ref); o.SetReal(2.5); return o.GetReal() == 2.5 ? 0 : 1; } catch (PdfError&) { return 2; }
}
"""),
"C05-tryget-reference": dict(property="C05", needs="an indirect object that is itself a reference, asked for its reference before anything else",
  breaks="TryGetReference answers no for an object that has not been loaded yet",
  subs=[("src/pdfmm/base/PdfObject.cpp", "    DelayedLoad();\n    return m_Variant.TryGetReference(ref);", "    return m_Variant.TryGetReference(ref);")],
  demo=PRE + r"""
int main() {
  PdfReference ref;
  { PdfMemDocument doc; doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    auto& t = doc.GetObjects().CreateObject(PdfObject(1.5));
    auto& o = doc.GetObjects().CreateObject(PdfObject(t.GetIndirectReference())); doc.GetCatalog().GetDictionary().AddKey("XNum", o.GetIndirectReference()); ref = o.GetIndirectReference();
    doc.Save("a.pdf", PdfSaveOptions::NoCollectGarbage); }
  PdfMemDocument doc; doc.Load("a.pdf");
  PdfReference r; return doc.GetObjects().MustGetObject(ref).TryGetReference(r) ? 0 : 1;
}
"""),
"C06-dict-move": dict(property="C06", needs="move-assigning a dictionary with nested containers onto the dictionary of a document object",
  breaks="values nested in a move-assigned dictionary do not know their document: references inside them do not resolve",
  subs=[("src/pdfmm/base/PdfDictionary.cpp", "    PdfDictionaryMap map(std::move(rhs.m_Map));\n    m_Map.swap(map);\n    setChildrenParent();", "    PdfDictionaryMap map(std::move(rhs.m_Map));\n    m_Map.swap(map);")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& t = doc.GetObjects().CreateObject(PdfObject(1.5));
  auto& o = doc.GetObjects().CreateDictionaryObject();
  PdfDictionary in; in.AddKey("R", PdfObject(t.GetIndirectReference()));
  PdfDictionary d; d.AddKey("In", PdfObject(in));
  o.GetDictionary() = std::move(d);
  return o.GetDictionary().MustFindKey("In").GetDictionary().FindKey("R") != nullptr ? 0 : 1;
}
"""),
"C06-array-assign": dict(property="C06", needs="assigning an array to an array that lives in a document",
  breaks="values in a copy-assigned array do not know their document: references inside them do not resolve",
  subs=[("src/pdfmm/base/PdfArray.cpp", "    m_Objects.swap(objects);\n    setChildrenParent();\n    SetDirty();\n    return *this;\n}\n\nPdfArray& PdfArray::operator=(PdfArray&&", "    m_Objects.swap(objects);\n    SetDirty();\n    return *this;\n}\n\nPdfArray& PdfArray::operator=(PdfArray&&")],
  demo=PRE + r"""
int main() {
  PdfMemDocument doc;
  auto& t = doc.GetObjects().CreateObject(PdfObject(1.5));
  auto& o = doc.GetObjects().CreateArrayObject();
  PdfArray in; in.Add(PdfObject(t.GetIndirectReference()));
  PdfArray d; d.Add(PdfObject(in));
  o.GetArray() = d;
  return o.GetArray().MustFindAt(0).GetArray().FindAt(0) != nullptr ? 0 : 1;
}
"""),
}
