// Uses the library's header templates, so that instantiations of all of them are analysed
// (the library itself only instantiates some).  Never linked or run.
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/pdfmm.h>
using namespace mm;
template <class N, class V> bool cmpv(const N& n, const V& v) { return (n == n) | (n != n) | (n == v) | (v == n) | (n != v) | (v != n) | (n == nullptr) | (nullptr == n) | (n != nullptr) | (nullptr != n) | n.has_value() | (&n.value() == nullptr) | (&*n == nullptr) | (n.operator->() == nullptr); }
template <class N> void assignv(N& n, const N& m) { N k(m); k = m; n = k; n = nullptr; }
bool use_nullable(const nullable<int>& a, const nullable<const int&>& b, int i, const nullable<PdfString>& c, const nullable<const PdfString&>& d, const PdfString& s, nullable<int>& m, nullable<const int&>& mr)
{
    assignv(m, a); assignv(mr, b); m = i; mr = nullable<const int&>(i);
    return cmpv(a, i) | cmpv(b, i) | cmpv(c, s) | cmpv(d, s) | (a == b) | (b == a) | (a != b) | (b != a) | (c == d) | (d == c) | (c != d) | (d != c);
}
template <class T> void getters(const PdfDictionary& d, const PdfArray& a)
{
    T t{};
    (void)d.GetKeyAs<T>("k"); (void)d.FindKeyAs<T>("k"); (void)d.FindKeyParentAs<T>("k");
    (void)d.FindKeyAsSafe<T>("k"); (void)d.FindKeyParentAsSafe<T>("k");
    (void)d.TryFindKeyAs("k", t); (void)d.TryFindKeyParentAs("k", t);
    (void)a.GetAtAs<T>(0); (void)a.FindAtAs<T>(0); (void)a.GetAtAsSafe<T>(0); (void)a.FindAtAsSafe<T>(0);
    (void)a.TryGetAtAs(0, t); (void)a.TryFindAtAs(0, t);
}
void use_getters(const PdfDictionary& d, const PdfArray& a)
{
    getters<bool>(d, a); getters<int64_t>(d, a); getters<double>(d, a);
    getters<PdfName>(d, a); getters<PdfString>(d, a); getters<PdfReference>(d, a);
}
template <class C> int iterate(C&& c)
{
    int n = 0;
    for (auto&& x : c) { (void)x; n++; }
    return n;
}
int use_iterators(PdfDictionary& d, PdfArray& a, const PdfDictionary& cd, const PdfArray& ca, PdfAcroForm& f, PdfPage& p)
{
    const auto& cf = f;
    std::vector<PdfObject> v;
    a.insert(a.begin(), v.begin(), v.end());
    int n = iterate(d) + iterate(a) + iterate(cd) + iterate(ca) + iterate(f) + iterate(cf);
    for (auto x : d.GetIndirectIterator()) { (void)x; n++; }
    for (auto x : cd.GetIndirectIterator()) { (void)x; n++; }
    for (auto&& x : a.GetIndirectIterator()) { (void)x; n++; }
    for (auto&& x : ca.GetIndirectIterator()) { (void)x; n++; }
    (void)p; return n;
}
void use_factories(PdfAcroForm& f, PdfPage& p, PdfObject& o, PdfMemDocument& doc)
{
    f.CreateField<PdfTextBox>("x"); f.CreateField<PdfCheckBox>("y"); f.CreateField<PdfSignature>("z");
    p.GetAnnotations().CreateAnnot<PdfAnnotationLink>(PdfRect());
    std::unique_ptr<PdfAnnotationLink> l; PdfAnnotation::TryCreateFromObject(o, l);
    std::unique_ptr<const PdfAnnotationLink> cl; PdfAnnotation::TryCreateFromObject(static_cast<const PdfObject&>(o), cl);
    std::unique_ptr<PdfXObjectForm> xf; PdfXObject::TryCreateFromObject(o, xf);
    std::unique_ptr<const PdfXObjectForm> cxf; PdfXObject::TryCreateFromObject(static_cast<const PdfObject&>(o), cxf);
}
