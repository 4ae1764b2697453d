// Out-of-line parts of libstdc++/libc needed by the code under test, as analysable source.
// (Environment model: behaviour follows the C/C++ standard; cross-checked by native replay of sampled paths.)
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <list>
#include <map>
#include <unordered_map>
#include <cstring>
#include <cstdlib>


template class std::basic_string<char>;

namespace std
{
	// ---- exceptions
	exception::~exception() noexcept {}
	const char* exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {}
	const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {}
	const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {}
	const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
	type_info::~type_info() {}

	static char* cowDup(const char* s, size_t n) { char* r = static_cast<char*>(malloc(n + 1)); memcpy(r, s, n); r[n] = 0; return r; }
	__cow_string::__cow_string() { _M_p = cowDup("", 0); }
	__cow_string::__cow_string(const std::string& s) { _M_p = cowDup(s.data(), s.size()); }
	__cow_string::__cow_string(const char* s, size_t n) { _M_p = cowDup(s, n); }
	__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = cowDup(o._M_p, strlen(o._M_p)); }
	__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free(const_cast<char*>(_M_p)); _M_p = cowDup(o._M_p, strlen(o._M_p)); } return *this; }
	__cow_string::~__cow_string() { free(const_cast<char*>(_M_p)); }
	__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = cowDup("", 0); }
	__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define SX_EXC_BASE(T) \
	T::T(const std::string& s) : _M_msg(s) {} \
	T::T(const char* s) : _M_msg(s, strlen(s)) {} \
	T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
	T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
	T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
	T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } \
	T::~T() noexcept {} \
	const char* T::what() const noexcept { return _M_msg._M_p; }
	SX_EXC_BASE(logic_error)
	SX_EXC_BASE(runtime_error)
#define SX_EXC(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
	SX_EXC(domain_error, logic_error)
	SX_EXC(invalid_argument, logic_error)
	SX_EXC(length_error, logic_error)
	SX_EXC(out_of_range, logic_error)
	SX_EXC(range_error, runtime_error)
	SX_EXC(overflow_error, runtime_error)
	SX_EXC(underflow_error, runtime_error)

	void __throw_logic_error(const char* s) { throw logic_error(s); }
	void __throw_length_error(const char* s) { throw length_error(s); }
	void __throw_out_of_range(const char* s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
	void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
	void __throw_runtime_error(const char* s) { throw runtime_error(s); }
	void __throw_overflow_error(const char* s) { throw overflow_error(s); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_bad_function_call() { throw bad_function_call(); }

	// ---- red-black tree (same algorithms as libstdc++ tree.cc)
	static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) {
		if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
		else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
		return x;
	}
	static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) {
		if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
		else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
		else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw () { return rbInc(x); }
	const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return rbInc(const_cast<_Rb_tree_node_base*>(x)); }
	_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw () { return rbDec(x); }
	const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return rbDec(const_cast<_Rb_tree_node_base*>(x)); }
	static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
		_Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
		if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
		y->_M_left = x; x->_M_parent = y;
	}
	static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
		_Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
		if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
		y->_M_right = x; x->_M_parent = y;
	}
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw () {
		_Rb_tree_node_base*& root = h._M_parent;
		x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
		if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
		else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
		while (x != root && x->_M_parent->_M_color == _S_red) {
			_Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
			if (x->_M_parent == xpp->_M_left) {
				_Rb_tree_node_base* const y = xpp->_M_right;
				if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
				else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
			} else {
				_Rb_tree_node_base* const y = xpp->_M_left;
				if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
				else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
			}
		}
		root->_M_color = _S_black;
	}
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw () {
		_Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
		_Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
		if (y->_M_left == 0) x = y->_M_right;
		else if (y->_M_right == 0) x = y->_M_left;
		else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
		if (y != z) {
			z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
			if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
			else xp = y;
			if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
			y->_M_parent = z->_M_parent; { _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; }
			y = z;
		} else {
			xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
			if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
			if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
			if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
		}
		if (y->_M_color != _S_red) {
			while (x != root && (x == 0 || x->_M_color == _S_black))
				if (x == xp->_M_left) {
					_Rb_tree_node_base* w = xp->_M_right;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
					if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else {
						if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
						w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
					}
				} else {
					_Rb_tree_node_base* w = xp->_M_left;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
					if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else {
						if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
						w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
					}
				}
			if (x) x->_M_color = _S_black;
		}
		return y;
	}

	// ---- list
	namespace __detail {
		void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
		void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
			if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
		}
		void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
			if (x._M_next != &x) {
				if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
				else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
			} else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
		}
		void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }

		// ---- hashing policy: any growth policy satisfies the container's contract
		static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 29, 37, 53, 67, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613};
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
			for (size_t i = 0; i < sizeof(primes) / sizeof(primes[0]); ++i) if (primes[i] >= n) { _M_next_resize = primes[i]; return primes[i]; }
			return n | 1;
		}
		std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
			if (ne + ni > _M_next_resize) { size_t want = ne + ni + 1; if (want < nb * 2) want = nb * 2; if (want > nb || nb == 1) return {true, _M_next_bkt(want < 13 ? 13 : want)}; _M_next_resize = nb; }
			return {false, 0};
		}
	}
	size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull; return h; }
	size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }

