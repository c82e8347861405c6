// Reflection-driven walks over element trees (independent of the library's own walkers).
#include "vm.h"
#include <set>
#include "kml/engine/kml_file.h"

using namespace kmldom;
using std::string;

static void Collect(const ElementPtr& e, std::vector<ElementPtr>* v, std::vector<string>* how, std::vector<const Element*>* parent, bool extras) {
  if (!e) return;
  const AccMap& m = AccOf(e->Type());
  if (*ClassName(e->Type()))
    for (AccMap::const_iterator i = m.begin(); i != m.end(); ++i) {
      const Acc& a = *i->second;
      if (a.kind == 'C' && a.has(e.get())) {
        v->push_back(a.cget(e.get())); how->push_back(i->first); parent->push_back(e.get());
        Collect(a.cget(e.get()), v, how, parent, extras);
      } else if (a.kind == 'A') {
        for (size_t k = 0; k < a.size(e.get()); ++k) {
          v->push_back(a.cat(e.get(), k)); how->push_back(i->first); parent->push_back(e.get());
          Collect(a.cat(e.get(), k), v, how, parent, extras);
        }
      }
    }
  if (extras)
    for (size_t k = 0; k < e->get_misplaced_elements_array_size(); ++k) {
      v->push_back(e->get_misplaced_elements_array_at(k)); how->push_back("misplaced"); parent->push_back(e.get());
      Collect(e->get_misplaced_elements_array_at(k), v, how, parent, extras);
    }
}
static std::vector<ElementPtr> All(const ElementPtr& e, bool extras) {
  std::vector<ElementPtr> v(1, e); std::vector<string> h; std::vector<const Element*> p;
  Collect(e, &v, &h, &p, extras);
  return v;
}
std::vector<ElementPtr> AllOf(const ElementPtr& e);
std::vector<ElementPtr> AllOf(const ElementPtr& e) { return All(e, true); }
OP(ptrs) {  // a b -> elements of a, of b, shared
  std::vector<ElementPtr> x = All(E(a[0]), true), y = All(E(a[1]), true);
  std::set<Element*> s; for (size_t i = 0; i < x.size(); ++i) s.insert(x[i].get());
  size_t n = 0; for (size_t i = 0; i < y.size(); ++i) n += s.count(y[i].get());
  o.push_back(I(x.size())); o.push_back(I(y.size())); o.push_back(I(n));
}
OP(parents) {  // -> children, wrong parents, elements held twice
  std::vector<ElementPtr> v; std::vector<string> h; std::vector<const Element*> p;
  Collect(E(a[0]), &v, &h, &p, false);
  size_t bad = 0, twice = 0; string first; std::set<const Element*> s;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i]->GetParent().get() != p[i]) { if (!bad++) first = string(ClassName(p[i]->Type())) + "." + h[i]; }
    if (!s.insert(v[i].get()).second) ++twice;
  }
  o.push_back(I(v.size())); o.push_back(I(bad)); o.push_back(I(twice)); o.push_back(first);
}
OP(pick) {  // reg idx out -> class, count
  std::vector<ElementPtr> x = All(E(a[0]), false);
  ElementPtr e = x[strtoull(a[1].c_str(), NULL, 10) % x.size()];
  Put(a[2], e, o); o.push_back(ClassName(e->Type())); o.push_back(I(x.size()));
}
OP(inside) {  // tree element -> is the very element part of the tree
  std::vector<ElementPtr> x = All(E(a[0]), true); Element* e = E(a[1]).get();
  bool r = false; for (size_t i = 0; i < x.size(); ++i) r |= x[i].get() == e;
  o.push_back(B(r));
}
OP(kflinkptrs) {  // kf root -> link parents which are elements of the tree, all link parents
  std::vector<ElementPtr> x = All(E(a[1]), true); std::set<Element*> s;
  for (size_t i = 0; i < x.size(); ++i) s.insert(x[i].get());
  const kmlengine::ElementVector& v = vm.kf[a[0]]->get_link_parent_vector();
  size_t n = 0; for (size_t i = 0; i < v.size(); ++i) n += s.count(v[i].get());
  o.push_back(I(n)); o.push_back(I(v.size()));
}
