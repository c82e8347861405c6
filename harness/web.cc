// Web service clients over a scripted and recorded HTTP client.
#include "vm.h"
#include <cstdlib>
#include <map>
#include <memory>
#include "kml/base/mimetypes.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/http_client.h"
#include "kml/engine/bbox.h"

using namespace kmldom;
using namespace kmlconvenience;
using std::string;

namespace {
struct Web {
  std::map<string, std::pair<bool, string> > resp;
  Out log;
  int budget;
  std::unique_ptr<HttpClient> bare;
  std::unique_ptr<GoogleMapsData> maps;
  std::unique_ptr<GoogleDocList> docs;
  std::unique_ptr<GooglePicasaWeb> picasa;
  std::unique_ptr<GoogleSpreadsheets> sheets;
  HttpClient* http;
  Web() : budget(0), http(NULL) {}
};
thread_local std::unique_ptr<Web> g_web;

struct ScriptHttp : HttpClient {
  Web* w;
  ScriptHttp(const string& app, Web* web) : HttpClient(app), w(web) {}
  virtual bool SendRequest(HttpMethodEnum m, const string& uri, const StringPairVector* h, const string* d, string* r) const {
    StringPairVector all;
    AppendHeaders(get_headers(), &all);
    if (h) AppendHeaders(*h, &all);
    w->log.push_back(I(m)); w->log.push_back(uri); w->log.push_back(I(all.size()));
    for (size_t i = 0; i < all.size(); ++i) { w->log.push_back(FormatHeader(all[i])); }
    w->log.push_back(d ? "d" + *d : "-");
    if (++w->budget > 500) return false;   // a client which never stops asking
    std::map<string, std::pair<bool, string> >::const_iterator i = w->resp.find(uri);
    if (i == w->resp.end()) return false;
    if (r) *r = i->second.second;
    return i->second.first;
  }
};
}

OP(webnew) {  // kind app [env value]
  g_web.reset(new Web);
  Web* w = g_web.get();
  if (a.size() > 3) setenv(a[2].c_str(), a[3].c_str(), 1);
  HttpClient* h = new ScriptHttp(a[1], w);
  w->http = h;
  if (a[0] == "maps") w->maps.reset(GoogleMapsData::Create(h));
  else if (a[0] == "docs") w->docs.reset(GoogleDocList::Create(h));
  else if (a[0] == "picasa") w->picasa.reset(GooglePicasaWeb::Create(h));
  else if (a[0] == "sheets") w->sheets.reset(GoogleSpreadsheets::Create(h));
  else w->bare.reset(h);
  if (a.size() > 3) unsetenv(a[2].c_str());
}
OP(webdef) {  // the default HTTP client, which echoes its request
  g_web.reset(new Web); g_web->http = new HttpClient(a[0]); g_web->bare.reset(g_web->http);
}
OP(webnull) { o.push_back(B(GoogleMapsData::Create(NULL) || GoogleDocList::Create(NULL) || GooglePicasaWeb::Create(NULL) || GoogleSpreadsheets::Create(NULL))); }
OP(webresp) { g_web->resp[a[0]] = std::make_pair(a[1] == "1", a[2]); }
OP(weblog) { o = g_web->log; g_web->log.clear(); }
OP(weblogin) { bool r = g_web->http->Login(a[0], a[1], a[2]); o.push_back(B(r)); o.push_back(g_web->http->get_auth_token()); }
OP(webadd) { g_web->http->AddHeader(a[0], a[1]); }
OP(webfind) { string v = "?"; bool r = HttpClient::FindHeader(a[0], g_web->http->get_headers(), &v); o.push_back(B(r)); o.push_back(v); o.push_back(B(HttpClient::FindHeader(a[0], g_web->http->get_headers(), NULL))); }
OP(websend) {  // method uri header value ...
  StringPairVector h;
  for (size_t i = 2; i + 1 < a.size(); i += 2) HttpClient::PushHeader(a[i], a[i + 1], &h);
  string r; o.push_back(B(g_web->http->SendRequest(static_cast<HttpMethodEnum>(atoi(a[0].c_str())), a[1], h.empty() ? NULL : &h, NULL, &r))); o.push_back(r);
  string f; o.push_back(B(g_web->http->FetchUrl(a[1], &f))); o.push_back(f);
}
OP(webconst) {
  o.push_back(GoogleMapsData::get_service_name()); o.push_back(GoogleMapsData::get_metafeed_uri());
  o.push_back(GoogleDocList::get_service_name()); o.push_back(GoogleDocList::get_metafeed_uri());
  o.push_back(GooglePicasaWeb::get_service_name()); o.push_back(GooglePicasaWeb::get_metafeed_uri());
  o.push_back(GoogleSpreadsheets::get_service_name()); o.push_back(GoogleSpreadsheets::get_metafeed_uri());
}
OP(webmeta) {  // slot
  Web* w = g_web.get(); string x; bool r; AtomFeedPtr f;
  if (w->maps) { r = w->maps->GetMetaFeedXml(&x); f = w->maps->GetMetaFeed(); }
  else if (w->docs) { r = w->docs->GetMetaFeedXml(&x); f = w->docs->GetMetaFeed(); }
  else if (w->picasa) { r = w->picasa->GetMetaFeedXml(&x); f = w->picasa->GetMetaFeed(); }
  else { r = w->sheets->GetMetaFeedXml(&x); f = w->sheets->GetMetaFeed(); }
  Put(a[0], f, o); o.push_back(B(r)); o.push_back(x);
}
OP(webupload) { string x; o.push_back(B(g_web->docs->UploadSpreadsheet(a[0], a[1], &x))); o.push_back(x); }
OP(webdownload) { string x; o.push_back(B(g_web->sheets->DownloadSpreadsheet(AsAtomEntry(E(a[0])), a[1], &x))); o.push_back(x); }
OP(webfeed) { string x; Put(a[1], g_web->maps->GetFeatureFeedByUri(a[0]), o); }
OP(webfeeduri) {  // entry : feature feed uri, search feed uri, kml uri
  string x, y, z; AtomEntryPtr e = AsAtomEntry(E(a[0]));
  o.push_back(B(GoogleMapsData::GetFeatureFeedUri(e, &x))); o.push_back(x);
  o.push_back(B(GoogleMapsData::GetSearchFeedUri(e, &y))); o.push_back(y);
  o.push_back(B(GoogleMapsData::GetKmlUri(e, &z))); o.push_back(z);
  o.push_back(B(GoogleMapsData::GetFeatureFeedUri(e, NULL))); o.push_back(B(GoogleMapsData::GetSearchFeedUri(e, NULL))); o.push_back(B(GoogleMapsData::GetKmlUri(e, NULL)));
}
OP(webmapdoc) { Put(a[1], g_web->maps->CreateDocumentOfMapFeatures(AsAtomFeed(E(a[0]))), o); }
OP(webcreate) { string x; o.push_back(B(g_web->maps->CreateMap(a[0], a[1], &x))); o.push_back(x); }
OP(webaddf) { string x; o.push_back(B(g_web->maps->AddFeature(a[0], AsFeature(E(a[1])), &x))); o.push_back(x); }
OP(websearch) { Put(a[5], g_web->maps->SearchMapByBbox(AsAtomEntry(E(a[0])), kmlengine::Bbox(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]))), o); }
OP(webpost) {  // kind title data slot
  string err;
  if (a[0] == "csv") { Put(a[3], g_web->maps->PostCsv(a[1], a[2], &err), o); o.push_back(err); }
  else Put(a[3], g_web->maps->PostKml(a[1], a[2]), o);
}
OP(webnext) { Put(a[1], AtomUtil::GetNextFeed(AsAtomFeed(E(a[0])), *g_web->http), o); }
OP(webparse) { Put(a[1], AtomUtil::GetAndParseFeed(a[0], *g_web->http), o); }
