// Library pieces that are only available as compiled code, written out so that the
// executor can run them symbolically.  Used only in the symbolic build.
#include <stddef.h>
#include <stdint.h>
#include <list>
#include <map>
#include <unordered_map>
extern "C" {
size_t symx_model_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int symx_model_strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int symx_model_strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i]) return 0;
  }
  return 0;
}
char* symx_model_strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* symx_model_strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
const void* symx_model_memchr(const void* p, int c, size_t n) {
  const unsigned char* q = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return q + i;
  return nullptr;
}
const char* symx_model_strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; }
}
int symx_model_isdigit(int c) { return c >= '0' && c <= '9'; }
int symx_model_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int symx_model_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int symx_model_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
long symx_model_time(long* t) { if (t) *t = 1700000000; return 1700000000; }
int symx_model_rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (int)((*s >> 8) & 0x7fffffff); }
int symx_model_rand() { static unsigned s = 1; s = s * 1103515245u + 12345u; return (int)((s >> 8) & 0x7fffffff); }
double symx_model_ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
}
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517};
  for (size_t i = 0; i < sizeof(p) / sizeof(p[0]); i++)
    if (p[i] >= n) { _M_next_resize = (size_t)(p[i] * (double)_M_max_load_factor); return p[i]; }
  _M_next_resize = n;
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    double min_bkts = (double)(n_elt + n_ins > (_M_next_resize ? 0u : 11u) ? n_elt + n_ins : 11u) / (double)_M_max_load_factor;
    if (min_bkts >= (double)n_bkt) {
      size_t want = (size_t)min_bkts + 1;
      if (want < n_bkt * 2) want = n_bkt * 2;
      return make_pair(true, _M_next_bkt(want));
    }
    _M_next_resize = (size_t)(n_bkt * (double)_M_max_load_factor);
    return make_pair(false, (size_t)0);
  }
  return make_pair(false, (size_t)0);
}
}  // namespace __detail
// A plain (unbalanced) binary search tree keeps every std::map/std::set observable.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_parent) {
    _Rb_tree_node_base* l = h._M_parent; while (l->_M_left) l = l->_M_left; h._M_left = l;
    _Rb_tree_node_base* r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r;
  } else { h._M_left = &h; h._M_right = &h; }
  return z;
}
}  // namespace std
extern "C" size_t symx_model__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) {
  const unsigned char* q = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + q[i];
  return h;
}
// diagnostics output: no observable effect
extern "C" size_t fwrite(const void*, size_t, size_t n, void*) { return n; }
