/* A vector whose operations are visible to the analysis: element storage is an
   abstract region ("vv_elems"), the size is a plain field, and appending,
   dropping and resizing are marked by calls.  Included before the library so
   that std::vector/std::pmr::vector mean this class.  It's only ever translated
   to IR, never run. */
#ifndef VERIF_VV_HPP
#define VERIF_VV_HPP
#include "common.hpp"
extern "C" {
void *vv_elems(const void *v) noexcept;              /* pure: address of the first element */
void vv_append(void *v,void *elem) noexcept;         /* an element was appended at elem */
void vv_shrink(void *v,std::size_t n) noexcept;      /* elements after n are gone */
void vv_grow(void *v,std::size_t n) noexcept;        /* default elements up to n were added */
void vv_insert(void *v,std::size_t i) noexcept;      /* an element was inserted before i */
void vv_erase(void *v,std::size_t i,std::size_t n) noexcept;
void vv_init(void *v,void *mr) noexcept;             /* constructed with a memory resource */
void vv_copy(void *v,const void *from) noexcept;
void vv_move(void *v,void *from) noexcept;
void vv_reserve(void *v,std::size_t n) noexcept;
}
namespace std { namespace pmr {
template<typename T> class verif_vector {
    std::size_t n;
    std::size_t unused;
    T *e() const noexcept { return static_cast<T*>(vv_elems(this)); }
public:
    using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = std::size_t;
    using difference_type = std::ptrdiff_t; using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    using allocator_type = std::pmr::polymorphic_allocator<T>;
    using reverse_iterator = std::reverse_iterator<T*>; using const_reverse_iterator = std::reverse_iterator<const T*>;
    verif_vector() noexcept : n(0) { vv_init(this,nullptr); }
    verif_vector(std::pmr::memory_resource *m) noexcept : n(0) { vv_init(this,m); }
    verif_vector(const allocator_type &a) noexcept : n(0) { vv_init(this,a.resource()); }
    explicit verif_vector(std::size_t k,const allocator_type &a={}) : n(0) { vv_init(this,a.resource()); n = k; vv_grow(this,k); }
    verif_vector(std::size_t k,const T &v,const allocator_type &a={}) : n(k) { vv_init(this,a.resource()); for(std::size_t i=0;i<k;++i) e()[i] = v; vv_grow(this,k); }
    verif_vector(std::initializer_list<T> l,const allocator_type &a={}) : n(0) { vv_init(this,a.resource()); for(auto &x : l) push_back(x); }
    template<std::input_iterator I> verif_vector(I a,I b,const allocator_type &al={}) : n(0) { vv_init(this,al.resource()); for(;a!=b;++a) emplace_back(*a); }
    verif_vector(const verif_vector &b) : n(b.n) { vv_copy(this,&b); }
    verif_vector(const verif_vector &b,const allocator_type&) : n(b.n) { vv_copy(this,&b); }
    verif_vector(verif_vector &&b) noexcept : n(b.n) { vv_move(this,&b); b.n = 0; }
    verif_vector(verif_vector &&b,const allocator_type&) noexcept : n(b.n) { vv_move(this,&b); b.n = 0; }
    verif_vector &operator=(const verif_vector &b) { n = b.n; vv_copy(this,&b); return *this; }
    verif_vector &operator=(verif_vector &&b) noexcept { n = b.n; vv_move(this,&b); b.n = 0; return *this; }
    verif_vector &operator=(std::initializer_list<T> l) { clear(); for(auto &x : l) push_back(x); return *this; }
    ~verif_vector() {}
    std::size_t size() const noexcept { return n; }
    bool empty() const noexcept { return n == 0; }
    std::size_t capacity() const noexcept { return n; }
    std::size_t max_size() const noexcept { return std::size_t(-1)/sizeof(T); }
    T *data() noexcept { return e(); } const T *data() const noexcept { return e(); }
    T *begin() noexcept { return e(); } const T *begin() const noexcept { return e(); } const T *cbegin() const noexcept { return e(); }
    T *end() noexcept { return e()+n; } const T *end() const noexcept { return e()+n; } const T *cend() const noexcept { return e()+n; }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); } reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); } const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const noexcept { return rbegin(); } const_reverse_iterator crend() const noexcept { return rend(); }
    T &operator[](std::size_t i) noexcept { return e()[i]; } const T &operator[](std::size_t i) const noexcept { return e()[i]; }
    T &at(std::size_t i) { return e()[i]; } const T &at(std::size_t i) const { return e()[i]; }
    T &front() noexcept { return e()[0]; } const T &front() const noexcept { return e()[0]; }
    T &back() noexcept { return e()[n-1]; } const T &back() const noexcept { return e()[n-1]; }
    template<typename... A> T &emplace_back(A&&... a) { T *p = e()+n; ::new((void*)p) T(std::forward<A>(a)...); ++n; vv_append(this,p); return e()[n-1]; }
    void push_back(const T &v) { emplace_back(v); }
    void push_back(T &&v) { emplace_back(std::move(v)); }
    void pop_back() noexcept { --n; vv_shrink(this,n); }
    void clear() noexcept { n = 0; vv_shrink(this,0); }
    void resize(std::size_t k) { if(k > n) vv_grow(this,k); else vv_shrink(this,k); n = k; }
    void resize(std::size_t k,const T &v) { if(k > n) { for(std::size_t i=n;i<k;++i) e()[i] = v; vv_grow(this,k); } else vv_shrink(this,k); n = k; }
    void reserve(std::size_t k) { vv_reserve(this,k); }
    void shrink_to_fit() {}
    template<typename... A> T *emplace(const T *p,A&&... a) { std::size_t i = std::size_t(p-e()); vv_insert(this,i); ++n; ::new((void*)(e()+i)) T(std::forward<A>(a)...); return e()+i; }
    T *insert(const T *p,const T &v) { return emplace(p,v); }
    T *insert(const T *p,T &&v) { return emplace(p,std::move(v)); }
    template<std::input_iterator I> T *insert(const T *p,I a,I b) { std::size_t i = std::size_t(p-e()); for(std::size_t k=i;a!=b;++a,++k) emplace(e()+k,*a); return e()+i; }
    T *erase(const T *p) noexcept { std::size_t i = std::size_t(p-e()); vv_erase(this,i,1); --n; return e()+i; }
    T *erase(const T *p,const T *q) noexcept { std::size_t i = std::size_t(p-e()); vv_erase(this,i,std::size_t(q-p)); n -= std::size_t(q-p); return e()+i; }
    void assign(std::size_t k,const T &v) { vv_shrink(this,0); for(std::size_t i=0;i<k;++i) e()[i] = v; vv_grow(this,k); n = k; }
    template<std::input_iterator I> void assign(I a,I b) { clear(); for(;a!=b;++a) emplace_back(*a); }
    void swap(verif_vector &b) noexcept { verif_vector t(std::move(b)); b = std::move(*this); *this = std::move(t); }
    friend void swap(verif_vector &a,verif_vector &b) noexcept { a.swap(b); }
    allocator_type get_allocator() const noexcept { return {}; }
    friend bool operator==(const verif_vector &a,const verif_vector &b) { return std::equal(a.begin(),a.end(),b.begin(),b.end()); }
    friend auto operator<=>(const verif_vector &a,const verif_vector &b) { return std::lexicographical_compare_three_way(a.begin(),a.end(),b.begin(),b.end()); }
};
}
template<typename T,typename A=void> using verif_vector = std::pmr::verif_vector<T>;
}
#define vector verif_vector
#endif
