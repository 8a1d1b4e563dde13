// C29: an object container chosen by the user.
#include "ref.h"
#include <list>
#include <map>
#include <functional>
template <class K, class T> struct Seq {
  typedef K key_type; typedef T mapped_type; typedef std::pair<const K, T> value_type; typedef std::list<value_type> list; typedef typename list::iterator iterator; typedef typename list::const_iterator const_iterator;
  list l;
  iterator begin() { return l.begin(); } iterator end() { return l.end(); } const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); } const_iterator cbegin() const { return l.begin(); } const_iterator cend() const { return l.end(); }
  size_t size() const { return l.size(); } bool empty() const { return l.empty(); } void clear() { l.clear(); }
  iterator find(const K& k) { iterator i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
  const_iterator find(const K& k) const { const_iterator i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
  size_t count(const K& k) const { return find(k) != end() ? 1 : 0; }
  T& operator[](const K& k) { iterator i = find(k); if (i == end()) i = l.insert(l.end(), value_type(k, T())); return i->second; }
  T& at(const K& k) { iterator i = find(k); if (i == end()) throw std::out_of_range("key"); return i->second; }
  template <class A, class B> std::pair<iterator, bool> emplace(A&& a, B&& b) { iterator i = find(a); if (i != end()) return { i, false }; return { l.insert(l.end(), value_type(std::forward<A>(a), std::forward<B>(b))), true }; }
  template <class P> std::pair<iterator, bool> insert(P&& p) { return emplace(p.first, p.second); }
  template <class P> iterator insert(const_iterator, P&& p) { return emplace(p.first, p.second).first; } template <class I> void insert(I a, I b) { for (; a != b; ++a) emplace(a->first, a->second); }
  template <class A, class B> iterator emplace_hint(const_iterator, A&& a, B&& b) { return emplace(std::forward<A>(a), std::forward<B>(b)).first; }
  const T& at(const K& k) const { const_iterator i = find(k); if (i == end()) throw std::out_of_range("key"); return i->second; }
  void swap(Seq& o) { l.swap(o.l); } friend void swap(Seq& a, Seq& b) { a.l.swap(b.l); } size_t max_size() const { return l.max_size(); }
  size_t erase(const K& k) { iterator i = find(k); if (i == end()) return 0; l.erase(i); return 1; }
  iterator erase(iterator i) { return l.erase(i); } iterator erase(iterator i, iterator j) { return l.erase(i, j); }
  friend bool operator==(const Seq& a, const Seq& b) { return a.l == b.l; } friend bool operator!=(const Seq& a, const Seq& b) { return !(a == b); } friend bool operator<(const Seq& a, const Seq& b) { return a.l < b.l; }
};
struct SeqArgs : value_tplargs { template <class K, class T, class... A> using object_type = Seq<K, T>; };
struct DescArgs : value_tplargs { template <class K, class T, class C, class... A> using object_type = std::map<K, T, std::greater<K>, A...>; };
typedef basic_json<SeqArgs> QJ; typedef basic_json<DescArgs> DJ;
template <class V> static std::string keys(const V& v) { std::string r; for (auto i = v.begin(); i != v.end(); ++i) r += i.key(); return r; }
template <class V> static std::string rkeys(const V& v) { std::string r; for (auto i = v.rbegin(); i != v.rend(); ++i) r = i.key() + r; return r; }
SX_ENTRY(args_order) {   // n one-letter keys (symbolic), an insertion-ordered and a descending object container
  int n = __sx_param(0), op = __sx_param(1); std::string t = "{", seq; char k[4]; int val[4];
  for (int i = 0; i < n; i++) { k[i] = (char)sym(8, "k"); __sx_assume(k[i] >= 'a' && k[i] <= 'z'); val[i] = i + 1; if (i) t += ','; t += '"'; t += k[i]; t += "\":"; t += (char)('1' + i); }
  t += '}';
  int first[4]; for (int i = 0; i < n; i++) { first[i] = i; for (int j = i - 1; j >= 0; j--) if (k[j] == k[i]) first[i] = first[j]; if (first[i] == i) seq += k[i]; }
  QJ::value v = QJ::parse(t); DJ::value d = DJ::parse(t);
  CHECK(bytes_eq(keys(v), seq) && bytes_eq(rkeys(v), seq) && v.size() == seq.size(), "C29 members are not in the order of the chosen container");
  for (int i = 0; i < n; i++) { std::string kk(1, k[i]); CHECK(v.at(kk) == val[first[i]] && d.at(kk) == val[first[i]] && v.count(kk) == 1, "C29 wrong member"); }
  std::string ds = keys(d); for (size_t i = 1; i < ds.size(); i++) CHECK(ds[i - 1] > ds[i], "C29 members are not in the order of the chosen container");
  std::string want = "{"; for (size_t i = 0; i < seq.size(); i++) { if (i) want += ','; want += '"'; want += seq[i]; want += "\":"; for (int j = 0; j < n; j++) if (k[j] == seq[i]) { want += (char)('1' + j); break; } } want += '}';
  CHECK(bytes_eq(QJ::dump(v), want), "C29 dump does not follow the order of the chosen container");
  QJ::value w = QJ::parse(QJ::dump(v)); CHECK(w == v && bytes_eq(keys(w), seq), "C29 a tree does not survive dump and parse");
  DJ::value e = DJ::parse(DJ::dump(d)); CHECK(e == d, "C29 a tree does not survive dump and parse");
  char x = (char)sym(8, "x"); __sx_assume(x >= 'a' && x <= 'z'); std::string xs(1, x); bool had = seq.find(x) != std::string::npos; std::string left; for (char c : seq) if (c != x) left += c;
  QJ::value c = v;
  switch (op) {
    case 0: CHECK(c.erase(xs) == (had ? 1u : 0u), "C29 erase"); CHECK(bytes_eq(keys(c), left), "C29 erase of a key"); c[xs] = 9; CHECK(bytes_eq(keys(c), left + x) && c[xs] == 9, "C29 an erased key comes back at the end"); break;
    case 1: c[xs] = 9; CHECK(bytes_eq(keys(c), had ? seq : seq + x) && c.at(xs) == 9, "C29 writing through a key"); break;
    case 2: { auto i = c.find(xs); CHECK((i == c.end()) == !had, "C29 find"); if (had) { i = c.erase(i); CHECK(bytes_eq(keys(c), left), "C29 erase of an iterator"); } break; }
    default: c.clear(); CHECK(c.is_object() && c.empty(), "C29 clear"); c = v; { QJ::value m(std::move(c)); CHECK(m == v && c.is_null(), "C29 move"); m.swap(c); CHECK(m.is_null() && c == v, "C29 swap"); } break;
  }
  CHECK(bytes_eq(keys(v), seq), "C29 a change of a copy is seen in the original"); __sx_cover("order");
}
