#include "vm.h"
#include "kml/base/attributes.h"
#include "kml/base/color32.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_handler.h"
#include "kml/base/expat_parser.h"
#include "kml/base/file.h"
#include "kml/base/math_util.h"
#include "kml/base/string_util.h"
#include "kml/base/tempfile.h"
#include <sys/stat.h>
#include "kml/base/uri_parser.h"
#include "kml/base/zip_file.h"
#include "kml/base/vec3.h"
#include "kml/base/xmlns.h"
#include "kml/base/xml_namespaces.h"
using namespace kmlbase;
using std::string;

OP(color) {  // abgr text
  Color32 c; c.set_color_abgr(a[0]);
  Color32 d(a[0]);
  o.push_back(I(c.get_color_abgr())); o.push_back(I(c.get_color_argb()));
  o.push_back(c.to_string_abgr()); o.push_back(c.to_string_argb());
  o.push_back(I(c.get_red())); o.push_back(I(c.get_green())); o.push_back(I(c.get_blue())); o.push_back(I(c.get_alpha()));
  o.push_back(B(c == d));
}
OP(colorint) {  // u32 -> strings, components, reparse
  uint32_t v = strtoul(a[0].c_str(), NULL, 10), w = strtoul(a[1].c_str(), NULL, 10);
  Color32 c(v), d(w), e, f, g(c.get_alpha(), c.get_blue(), c.get_green(), c.get_red()), h;
  e.set_color_argb(v); f.set_color_abgr(c.to_string_abgr()); h = c;
  o.push_back(I(c.get_color_abgr())); o.push_back(I(c.get_color_argb()));
  o.push_back(c.to_string_abgr()); o.push_back(c.to_string_argb());
  o.push_back(I(e.get_color_argb())); o.push_back(I(f.get_color_abgr())); o.push_back(I(g.get_color_abgr())); o.push_back(I(h.get_color_abgr()));
  o.push_back(B(c == d)); o.push_back(B(c != d)); o.push_back(B(c < d)); o.push_back(B(c > d));
  Color32 s; s.set_color_abgr(w); s.set_red(c.get_red()); s.set_green(c.get_green()); s.set_blue(c.get_blue()); s.set_alpha(c.get_alpha());
  o.push_back(I(s.get_color_abgr()));
  Color32 s2; s2.set_color_abgr(w); s2.set_green(c.get_green()); o.push_back(I(s2.get_color_abgr()));
  Color32 s3; s3.set_color_abgr(w); s3.set_alpha(c.get_alpha()); o.push_back(I(s3.get_color_abgr()));
  Color32 s4; s4.set_color_abgr(w); s4.set_blue(c.get_blue()); o.push_back(I(s4.get_color_abgr()));
  Color32 s5; s5.set_color_abgr(w); s5.set_red(c.get_red()); o.push_back(I(s5.get_color_abgr()));
}
OP(datetime) {
  std::unique_ptr<DateTime> d(DateTime::Create(a[0]));
  o.push_back(d ? "ok" : "null");
  o.push_back(I(DateTime::ToTimeT(a[0])));
  if (d) { o.push_back(I(d->GetTimeT())); o.push_back(d->GetXsdDate()); o.push_back(d->GetXsdTime()); o.push_back(d->GetXsdDateTime()); }
}
OP(csvsplit) {  // rows: "R", cols...
  CsvSplitter s(a[0]); StringVector c; int guard = 0;
  while (s.SplitCurrentLine(&c)) {
    o.push_back("R" + I(c.size())); o.insert(o.end(), c.begin(), c.end()); c.clear();
    if (++guard > 100000) { o.push_back("!loop"); break; }
  }
}
OP(todouble) { double d = -12345.5; bool r = StringToDouble(a[0], &d); o.push_back(B(r)); o.push_back(D(d)); o.push_back(B(IsDecimalDoubleString(a[0]))); }
OP(fromdouble) { o.push_back(ToString(ToD(a[0]))); }
OP(strbool) { bool b = false; FromString(a[0], &b); o.push_back(B(b)); }
OP(splitstr) { StringVector v; SplitStringUsing(a[0], a[1], &v); o = v; }
OP(splitquoted) { StringVector v; SplitQuotedUsingFromString(a[0], a[1][0], &v); o = v; }
OP(endswith) { o.push_back(B(StringEndsWith(a[0], a[1]))); }
OP(caseeq) { o.push_back(B(StringCaseEqual(a[0], a[1]))); }
OP(skipws) { o.push_back(I(SkipLeadingWhitespaceString(a[0]))); }
OP(expandstr) { StringMap m; for (size_t i = 3; i + 1 < a.size(); i += 2) m[a[i]] = a[i + 1]; o.push_back(CreateExpandedStrings(a[0], m, a[1], a[2])); }
OP(azimuth) { o.push_back(D(AzimuthBetweenPoints(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3])))); }
OP(distance) { o.push_back(D(DistanceBetweenPoints(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3])))); }
OP(distance3d) { o.push_back(D(DistanceBetweenPoints3d(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]), ToD(a[5])))); }
OP(elevation) { o.push_back(D(ElevationBetweenPoints(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]), ToD(a[5])))); }
OP(radial) { Vec3 v = LatLngOnRadialFromPoint(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3])); o.push_back(D(v.get_latitude())); o.push_back(D(v.get_longitude())); }
OP(rangeelev) { o.push_back(D(GroundDistanceFromRangeAndElevation(ToD(a[0]), ToD(a[1])))); o.push_back(D(HeightFromRangeAndElevation(ToD(a[0]), ToD(a[1])))); }
OP(degrad) { double d = ToD(a[0]); o.push_back(D(DegToRad(d))); o.push_back(D(RadToDeg(DegToRad(d)))); o.push_back(D(MetersToRadians(d))); o.push_back(D(RadiansToMeters(MetersToRadians(d)))); }
OP(attrs) {  // k v k v -> size, iter...
  StringVector v(a.begin(), a.end()); std::unique_ptr<Attributes> t(Attributes::Create(v));
  if (!t) { o.push_back("null"); return; }
  o.push_back("ok"); o.push_back(I(t->GetSize()));
  string s; t->Serialize(&s); o.push_back(s);
  std::unique_ptr<Attributes> c(t->Clone()); string s2; c->Serialize(&s2); o.push_back(s2);
  for (StringMapIterator it = t->CreateIterator(); !it.AtEnd(); it.Advance()) { o.push_back(it.Data().first); o.push_back(it.Data().second); }
}
static std::map<string, std::shared_ptr<Attributes> >& At_() { static thread_local std::map<string, std::shared_ptr<Attributes> > m; return m; }
static Attributes* AT(const string& r) { std::shared_ptr<Attributes>& p = At_()[r]; if (!p) p.reset(new Attributes); return p.get(); }
OP(atreset) { At_().clear(); }
OP(atmake) {  // reg how pairs...
  if (a[1] == "vec") { StringVector v(a.begin() + 2, a.end()); At_()[a[0]].reset(Attributes::Create(v)); return; }
  std::vector<const char*> c; for (size_t i = 2; i < a.size(); ++i) c.push_back(a[i].c_str()); c.push_back(NULL);
  if (c.size() % 2 == 0) c.push_back(NULL);
  At_()[a[0]].reset(Attributes::Create(&c[0]));
}
OP(atset) {
  if (a[1] == "s") AT(a[0])->SetValue(a[2], a[3]); else if (a[1] == "S") AT(a[0])->SetString(a[2], a[3]);
  else if (a[1] == "i") AT(a[0])->SetValue(a[2], atoi(a[3].c_str())); else if (a[1] == "d") AT(a[0])->SetValue(a[2], ToD(a[3]));
  else AT(a[0])->SetValue(a[2], a[3] == "1");
}
OP(atget) {  // reg kind name cut
  bool cut = a[3] == "1"; Attributes* t = AT(a[0]); string s = "untouched"; int i = -77; double d = -77; bool b = false; bool r = false;
  if (a[1] == "s") { r = cut ? t->CutValue(a[2], &s) : t->GetValue(a[2], &s); o.push_back(s); }
  else if (a[1] == "S") { r = cut ? t->CutValue(a[2], &s) : t->GetString(a[2], &s); o.push_back(s); }
  else if (a[1] == "i") { r = cut ? t->CutValue(a[2], &i) : t->GetValue(a[2], &i); o.push_back(I(i)); }
  else if (a[1] == "d") { r = cut ? t->CutValue(a[2], &d) : t->GetDouble(a[2], &d); o.push_back(D(d)); }
  else if (a[1] == "n") { r = cut ? t->CutValue(a[2], static_cast<string*>(NULL)) : t->GetValue(a[2], static_cast<string*>(NULL)); o.push_back(""); }
  else { r = cut ? t->CutValue(a[2], &b) : t->GetBool(a[2], &b); o.push_back(B(b)); }
  o.push_back(B(r));
}
OP(atfind) { string k = "untouched", v = "untouched"; bool f = AT(a[0])->FindKey(a[1], &k), g = AT(a[0])->FindValue(a[2], &v); o.push_back(B(f)); o.push_back(k); o.push_back(B(g)); o.push_back(v); }
OP(atclone) { At_()[a[1]].reset(AT(a[0])->Clone()); }
OP(atmerge) { AT(a[0])->MergeAttributes(*AT(a[1])); }
OP(atsplit) { Attributes* s = AT(a[0])->SplitByPrefix(a[1]); o.push_back(s ? "ok" : "null"); At_()[a[2]].reset(s); }
OP(atall) {  // reg -> size, names, pairs
  Attributes* t = AT(a[0]); StringVector n; t->GetAttrNames(&n); o.push_back(I(t->GetSize())); o.push_back(I(n.size())); o.insert(o.end(), n.begin(), n.end());
  for (StringMapIterator it = t->CreateIterator(); !it.AtEnd(); it.Advance()) { o.push_back(it.Data().first); o.push_back(it.Data().second); }
}
OP(atser) { string s = a[1]; AT(a[0])->Serialize(&s); o.push_back(s); AT(a[0])->Serialize(NULL); }
OP(xmlnsof) {  // reg prefix uri
  std::unique_ptr<Xmlns> x(Xmlns::Create(*AT(a[0]))); o.push_back(x ? "ok" : "null"); if (!x) return;
  o.push_back(x->get_default()); o.push_back(x->GetNamespace(a[1])); o.push_back(x->GetKey(a[2])); StringVector v; x->GetPrefixes(&v); o.insert(o.end(), v.begin(), v.end());
}
OP(nstable) {
  for (int i = XMLNS_NONE; i <= XMLNS_XSI + 3; ++i) {
    string p = "untouched", u = "untouched"; o.push_back(B(FindXmlNamespaceAndPrefix(static_cast<XmlnsId>(i), &p, &u))); o.push_back(p); o.push_back(u);
    o.push_back(B(FindXmlNamespaceAndPrefix(static_cast<XmlnsId>(i), NULL, NULL)));
  }
}
OP(color2) {  // u32, other -> through every assignment
  uint32_t v = strtoul(a[0].c_str(), NULL, 10), w = strtoul(a[1].c_str(), NULL, 10);
  Color32 c(w), d(w), e(w), f(w), g(static_cast<int32_t>(v)), h(w), k; c = v; d = static_cast<int32_t>(v); e = Color32(v); f.set_color_abgr(v >> 24, v >> 16, v >> 8, v); h.set_color_abgr(v);
  o.push_back(I(c.get_color_abgr())); o.push_back(I(d.get_color_abgr())); o.push_back(I(e.get_color_abgr())); o.push_back(I(f.get_color_abgr())); o.push_back(I(g.get_color_abgr()));
  o.push_back(I(h.get_color_abgr())); o.push_back(I(k.get_color_abgr()));
}
OP(attrsplit) {  // prefix k v ... -> split part, "--", rest
  StringVector v(a.begin() + 1, a.end()); std::unique_ptr<Attributes> t(Attributes::Create(v));
  std::unique_ptr<Attributes> s(t->SplitByPrefix(a[0]));
  if (s) for (StringMapIterator it = s->CreateIterator(); !it.AtEnd(); it.Advance()) { o.push_back(it.Data().first); o.push_back(it.Data().second); }
  o.insert(o.begin(), I(o.size()));
  for (StringMapIterator it = t->CreateIterator(); !it.AtEnd(); it.Advance()) { o.push_back(it.Data().first); o.push_back(it.Data().second); }
}
OP(zip) {  // bytes, names... -> iszip, open, toc..., then reads
  o.push_back(B(ZipFile::IsZipData(a[0])));
  std::unique_ptr<ZipFile> z(ZipFile::OpenFromString(a[0]));
  o.push_back(z ? "ok" : "null"); if (!z) return;
  StringVector v; z->GetToc(&v); o.push_back(I(v.size())); o.insert(o.end(), v.begin(), v.end());
  string f; bool r = z->FindFirstOf(".kml", &f); o.push_back(B(r)); o.push_back(f);
  for (size_t i = 1; i < a.size(); ++i) { string s; bool k = z->GetEntry(a[i], &s); o.push_back(B(k)); o.push_back(s); o.push_back(B(z->IsInToc(a[i]))); }
}
OP(uparse) {
  std::unique_ptr<UriParser> u(UriParser::CreateFromParse(a[0].c_str()));
  o.push_back(u ? "ok" : "null"); if (!u) return;
  string s; o.push_back(B(u->ToString(&s))); o.push_back(s);
}
OP(winfile) { string s; bool r = UriParser::WindowsFilenameToUri(a[0], &s); o.push_back(B(r)); o.push_back(s); string t; bool q = UriParser::UriToWindowsFilename(s, &t); o.push_back(B(q)); o.push_back(t); }
OP(fwritef) { o.push_back(B(File::WriteStringToFile(a[1], a[0]))); }
OP(freadf) { string s = "untouched"; bool r = File::ReadFileToString(a[0], &s); o.push_back(B(r)); o.push_back(s); o.push_back(B(File::ReadFileToString(a[0], NULL))); }
OP(fexists) { o.push_back(B(File::Exists(a[0]))); }
OP(fdelete) { o.push_back(B(File::Delete(a[0]))); }
static std::map<string, TempFilePtr>& Tmp() { static thread_local std::map<string, TempFilePtr> m; return m; }
OP(tmpnew) { TempFilePtr t = TempFile::CreateTempFile(); Tmp()[a[0]] = t; o.push_back(t ? t->name() : ""); }
OP(tmpcopy) { Tmp()[a[1]] = Tmp()[a[0]]; o.push_back(Tmp()[a[1]] ? Tmp()[a[1]]->name() : ""); }
OP(tmpdrop) { Tmp().erase(a[0]); }
OP(tmpraw) { string s = "untouched"; o.push_back(B(File::CreateNewTempFile(&s))); o.push_back(s); o.push_back(B(File::CreateNewTempFile(NULL))); }
OP(umaskis) { mode_t m = umask(0); umask(m); o.push_back(I(m)); }
OP(setumask) { o.push_back(I(umask(atoi(a[0].c_str())))); }
OP(splitpath) { string d, f; File::SplitFilePath(a[0], NULL, &f); File::SplitFilePath(a[0], &d, NULL); File::SplitFilePath(a[0], NULL, NULL); string d2, f2; File::SplitFilePath(a[0], &d2, &f2); if (d != d2 || f != f2) o.push_back("differs"); o.push_back(d); o.push_back(f); o.push_back(File::JoinPaths(d, f)); }
OP(joinpaths) { o.push_back(File::JoinPaths(a[0], a[1])); }
#include <signal.h>
#include <sys/resource.h>
OP(fsize) {  // fault injection: files cannot grow beyond this
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit r;
  getrlimit(RLIMIT_FSIZE, &r);
  r.rlim_cur = a[0] == "max" ? r.rlim_max : strtoull(a[0].c_str(), NULL, 10);
  o.push_back(I(setrlimit(RLIMIT_FSIZE, &r)));
}
OP(fdlimit) {  // fault injection: no further file can be opened
  struct rlimit r;
  getrlimit(RLIMIT_NOFILE, &r);
  static const rlim_t was = r.rlim_cur;
  r.rlim_cur = a[0] == "max" ? was : strtoull(a[0].c_str(), NULL, 10);
  o.push_back(I(setrlimit(RLIMIT_NOFILE, &r)));
}
#include "kml/base/localec.h"
#include "kml/base/version.h"
OP(vec3) {  // number of components, components..., then pairs (what, value); after each: the point
  int n = atoi(a[0].c_str());
  double d[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i) d[i] = strtod(a[1 + i].c_str(), NULL);
  Vec3 v = n == 0 ? Vec3() : n == 2 ? Vec3(d[0], d[1]) : Vec3(d[0], d[1], d[2]);
  Vec3 first(v);
  for (size_t p = 1 + n;; p += 2) {
    o.push_back(D(v.get_longitude()) + "," + D(v.get_latitude()) + "," + D(v.get_altitude()) + "," + B(v.has_altitude()) + "," +
                D(v.get_heading()) + "," + D(v.get_pitch()) + "," + D(v.get_roll()) + "," + B(v == first) + B(first == v) + B(v == v));
    if (p + 1 >= a.size()) break;
    double x = strtod(a[p + 1].c_str(), NULL);
    if (a[p] == "alt") v.set_altitude(x);
    else if (a[p] == "clear") v.clear_altitude();
    else v.set(atoi(a[p].c_str()), x);
  }
}
static string Loc() { char b[64]; snprintf(b, sizeof b, "%.1f %.1f", 1.5, strtod("2.5", NULL)); return b; }
OP(localec) {  // depth: number as printed before, within and after nested guards
  o.push_back(Loc());
  { LocaleC one; o.push_back(Loc());
    { LocaleC two; o.push_back(Loc()); { LocaleC three; o.push_back(Loc()); } o.push_back(Loc()); }
    o.push_back(Loc()); }
  o.push_back(Loc());
  o.push_back(B(uselocale((locale_t)0) == LC_GLOBAL_LOCALE));
}
OP(tostr) {  // float, int, bool texts
  float f = strtof(a[0].c_str(), NULL);
  o.push_back(ToString(f)); o.push_back(ToString(atoi(a[1].c_str()))); o.push_back(ToString(true)); o.push_back(ToString(false));
  o.push_back(ToString(string(a[2]))); o.push_back(ToString(a[2].c_str())); o.push_back(ToString((double)f));
  char h[3] = {'!', '!', '!'}; b2a_hex((unsigned)atoi(a[1].c_str()), h); o.push_back(string(h, 3));
}
OP(version) {
  o.push_back(Version::GetString()); o.push_back(I(Version::get_major())); o.push_back(I(Version::get_minor())); o.push_back(I(Version::get_micro()));
  o.push_back(B(Version::IsCompat(atoi(a[0].c_str()), atoi(a[1].c_str()), atoi(a[2].c_str()))));
}
