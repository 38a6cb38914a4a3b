// Calls to the algorithms, the same text for the reference (NS=std) and the library (NS=ustl).
// P orders and compares by k only; t tells equal elements apart.
#ifdef C07_TYPES
struct P { int k, t; P (int kk = 0, int tt = 0) : k (kk), t (tt) {}
    bool operator== (const P& o) const { return k == o.k; } bool operator!= (const P& o) const { return k != o.k; } bool operator< (const P& o) const { return k < o.k; }
    P operator+ (const P& o) const { return P (k+o.k, t+o.t); } P operator- (const P& o) const { return P (k-o.k, t-o.t); } P operator* (const P& o) const { return P (k*o.k, t*o.t); }
    P& operator+= (const P& o) { k += o.k; t += o.t; return *this; } P& operator*= (const P& o) { k *= o.k; t *= o.t; return *this; } P& operator++ (void) { ++k; return *this; } P operator++ (int) { P r (*this); ++k; return r; } };
struct Res { long r[3]; long out; };	// out: elements written to the output, -1 when there is none
// Predicates carry their parameter, so losing the object passed in is noticed
struct Pk { int k; Pk (int kk = 99) : k (kk) {} bool operator() (const P& p) const { return p.k == k; } };
struct Bp { int d; Bp (int dd = 99) : d (dd) {} bool operator() (const P& a, const P& b) const { return a.k + d == b.k; } };	// not symmetric unless d is 0
struct Cm { int s; Cm (int ss = 1) : s (ss) {} bool operator() (const P& a, const P& b) const { return s*a.k < s*b.k; } };
struct Dn { bool operator() (const P& a, const P& b) const { return b.k < a.k; } };
struct Un { int a; Un (int aa = 0) : a (aa) {} P operator() (const P& p) const { return P (p.k*10+a, p.t); } };
struct Bn { int a; Bn (int aa = 0) : a (aa) {} P operator() (const P& p, const P& q) const { return P (p.k*100+q.k*3+a, p.t); } };
struct Gn { int n; Gn (int nn = 0) : n (nn) {} P operator() (void) { return P (n++, 0); } };
struct Acc { long s; Acc (void) : s (0) {} void operator() (const P& p) { s = s*7 + p.k; } };
enum Need { ANY, SORTED, SORTEDD, HALVES, HALVESD, HEAP };	// what [a,a+n) must be
#define C07_OPS(X) \
    X(find, ANY) X(find_if, ANY) X(adjacent_find, ANY) X(adjacent_find_p, ANY) X(count, ANY) X(count_if, ANY) X(replace, ANY) X(replace_if, ANY) X(replace_copy, ANY) X(replace_copy_if, ANY) \
    X(copy, ANY) X(copy_n, ANY) X(copy_if, ANY) X(copy_left, ANY) X(copy_backward, ANY) X(fill, ANY) X(fill_n, ANY) X(generate, ANY) X(generate_n, ANY) X(reverse, ANY) X(reverse_copy, ANY) X(rotate, ANY) X(rotate_copy, ANY) \
    X(remove, ANY) X(remove_if, ANY) X(remove_copy, ANY) X(remove_copy_if, ANY) X(unique, ANY) X(unique_p, ANY) X(unique_copy, ANY) X(unique_copy_p, ANY) X(transform, ANY) X(for_each, ANY) \
    X(stable_sort, ANY) X(stable_sort_p, ANY) X(is_sorted, ANY) X(is_sorted_p, ANY) X(lower_bound, SORTED) X(lower_bound_p, SORTEDD) X(upper_bound, SORTED) X(upper_bound_p, SORTEDD) \
    X(equal_range, SORTED) X(equal_range_p, SORTEDD) X(binary_search, SORTED) X(binary_search_p, SORTEDD) X(next_permutation, ANY) X(next_permutation_p, ANY) X(prev_permutation, ANY) X(prev_permutation_p, ANY) \
    X(max_element, ANY) X(max_element_p, ANY) X(min_element, ANY) X(min_element_p, ANY) X(minmax_element, ANY) X(minmax_element_p, ANY) X(is_heap, ANY) X(is_heap_p, ANY) X(search_n, ANY) X(search_n_p, ANY) \
    X(stable_partition, ANY) X(inplace_merge, HALVES) X(accumulate, ANY) X(accumulate_p, ANY) X(iota, ANY) X(partial_sum, ANY) X(partial_sum_p, ANY) X(partial_sum_in, ANY) X(adjacent_difference, ANY) X(adjacent_difference_p, ANY) X(adjacent_difference_in, ANY) \
    X(swap_ranges, ANY) X(mismatch, ANY) X(mismatch_p, ANY) X(equal, ANY) X(equal_p, ANY) X(transform2, ANY) X(inner_product, ANY) X(inner_product_p, ANY) X(iter_swap, ANY)
// two ranges of any lengths; SORTED ones are both sorted
#define C07_OPS2(X) \
    X(search, ANY) X(search_p, ANY) X(find_end, ANY) X(find_end_p, ANY) X(find_first_of, ANY) X(find_first_of_p, ANY) X(lexicographical_compare, ANY) X(lexicographical_compare_p, ANY) \
    X(merge, SORTED) X(includes, SORTED) X(includes_p, SORTEDD) X(set_union, SORTED) X(set_union_p, SORTEDD) X(set_intersection, SORTED) X(set_intersection_p, SORTEDD) \
    X(set_difference, SORTED) X(set_difference_p, SORTEDD) X(set_symmetric_difference, SORTED) X(set_symmetric_difference_p, SORTEDD)
#define X(n,s) OP_##n,
enum { C07_OPS(X) OP_END1, OP2_BEGIN = OP_END1-1, C07_OPS2(X) OP_END2 };
#undef X
#endif
#ifdef NS
// a: first range (may be changed), b: second, o: output; v value, m split point of [a,a+n)
template <class It> static Res C07_CALL (int op, It a, int n, It b, int nb, It o, int v, int m)
{
    Res R; R.r[0] = R.r[1] = R.r[2] = 0; R.out = -1; It e = a + n, be = b + nb; long& r = R.r[0]; const P V (v, 77), W (9, 9);
    #define OUT(x) R.out = (x) - o
    switch (op) {
	case OP_find: r = NS::find (a, e, V) - a; break;
	case OP_find_if: r = NS::find_if (a, e, Pk (v)) - a; break;
	case OP_adjacent_find: r = NS::adjacent_find (a, e) - a; break;
	case OP_adjacent_find_p: r = NS::adjacent_find (a, e, Bp (v)) - a; break;
	case OP_count: r = NS::count (a, e, V); break;
	case OP_count_if: r = NS::count_if (a, e, Pk (v)); break;
	case OP_replace: NS::replace (a, e, V, W); break;
	case OP_replace_if: NS::replace_if (a, e, Pk (v), W); break;
	case OP_replace_copy: OUT (NS::replace_copy (a, e, o, V, W)); break;
	case OP_replace_copy_if: OUT (NS::replace_copy_if (a, e, o, Pk (v), W)); break;
	case OP_copy: OUT (NS::copy (a, e, o)); break;
	case OP_copy_n: OUT (NS::copy_n (a, size_t(m), o)); break;
	case OP_copy_if: OUT (NS::copy_if (a, e, o, Pk (v))); break;
	case OP_copy_left: r = NS::copy (a + m, e, a) - a; break;
	case OP_copy_backward: r = NS::copy_backward (a, a + m, e) - a; break;
	case OP_fill: NS::fill (a, e, V); break;
	case OP_fill_n: OUT (NS::fill_n (o, size_t(m), V)); break;
	case OP_generate: NS::generate (a, e, Gn (v)); break;
	case OP_generate_n: OUT (NS::generate_n (o, size_t(m), Gn (v))); break;
	case OP_reverse: NS::reverse (a, e); break;
	case OP_reverse_copy: OUT (NS::reverse_copy (a, e, o)); break;
	case OP_rotate: r = NS::rotate (a, a + m, e) - a; break;
	case OP_rotate_copy: OUT (NS::rotate_copy (a, a + m, e, o)); break;
	case OP_remove: r = NS::remove (a, e, V) - a; R.r[2] = 1; break;	// r[2]: elements from r on are unspecified
	case OP_remove_if: r = NS::remove_if (a, e, Pk (v)) - a; R.r[2] = 1; break;
	case OP_remove_copy: OUT (NS::remove_copy (a, e, o, V)); break;
	case OP_remove_copy_if: OUT (NS::remove_copy_if (a, e, o, Pk (v))); break;
	case OP_unique: r = NS::unique (a, e) - a; R.r[2] = 1; break;
	case OP_unique_p: r = NS::unique (a, e, Bp (0)) - a; R.r[2] = 1; break;
	case OP_unique_copy: OUT (NS::unique_copy (a, e, o)); break;
	case OP_unique_copy_p: OUT (NS::unique_copy (a, e, o, Bp (0))); break;
	case OP_transform: OUT (NS::transform (a, e, o, Un (v))); break;
	case OP_for_each: r = NS::for_each (a, e, Acc()).s; break;
	case OP_stable_sort: NS::stable_sort (a, e); break;
	case OP_stable_sort_p: NS::stable_sort (a, e, Cm (-1)); break;
	case OP_is_sorted: r = NS::is_sorted (a, e); break;
	case OP_is_sorted_p: r = NS::is_sorted (a, e, Cm (-1)); break;
	case OP_lower_bound: r = NS::lower_bound (a, e, V) - a; break;
	case OP_lower_bound_p: r = NS::lower_bound (a, e, V, Cm (-1)) - a; break;
	case OP_upper_bound: r = NS::upper_bound (a, e, V) - a; break;
	case OP_upper_bound_p: r = NS::upper_bound (a, e, V, Cm (-1)) - a; break;
	case OP_equal_range: r = NS::equal_range (a, e, V).first - a; R.r[1] = NS::equal_range (a, e, V).second - a; break;
	case OP_equal_range_p: r = NS::equal_range (a, e, V, Cm (-1)).first - a; R.r[1] = NS::equal_range (a, e, V, Cm (-1)).second - a; break;
	case OP_binary_search: r = NS::binary_search (a, e, V); break;
	case OP_binary_search_p: r = NS::binary_search (a, e, V, Cm (-1)); break;
	case OP_next_permutation: r = NS::next_permutation (a, e); break;
	case OP_next_permutation_p: r = NS::next_permutation (a, e, Cm (-1)); break;
	case OP_prev_permutation: r = NS::prev_permutation (a, e); break;
	case OP_prev_permutation_p: r = NS::prev_permutation (a, e, Cm (-1)); break;
	case OP_max_element: r = NS::max_element (a, e) - a; break;
	case OP_max_element_p: r = NS::max_element (a, e, Cm (-1)) - a; break;
	case OP_min_element: r = NS::min_element (a, e) - a; break;
	case OP_min_element_p: r = NS::min_element (a, e, Cm (-1)) - a; break;
	case OP_minmax_element: r = NS::minmax_element (a, e).first - a; R.r[1] = NS::minmax_element (a, e).second - a; break;
	case OP_minmax_element_p: r = NS::minmax_element (a, e, Cm (-1)).first - a; R.r[1] = NS::minmax_element (a, e, Cm (-1)).second - a; break;
	case OP_is_heap: r = NS::is_heap (a, e); break;
	case OP_is_heap_p: r = NS::is_heap (a, e, Cm (-1)); break;
	case OP_search_n: r = NS::search_n (a, e, m, V) - a; break;
	case OP_search_n_p: r = NS::search_n (a, e, m, V, Bp (1)) - a; break;
	case OP_stable_partition: r = NS::stable_partition (a, e, Pk (v)) - a; break;
	case OP_inplace_merge: NS::inplace_merge (a, a + m, e); break;
	case OP_accumulate: { P s = NS::accumulate (a, e, V); r = s.k; R.r[1] = s.t; } break;
	case OP_accumulate_p: r = NS::accumulate (a, e, V, Bn (v)).k; break;
	case OP_iota: NS::iota (a, e, V); break;
	case OP_partial_sum: OUT (NS::partial_sum (a, e, o)); break;
	case OP_partial_sum_p: OUT (NS::partial_sum (a, e, o, Bn (v))); break;
	case OP_partial_sum_in: r = NS::partial_sum (a, e, a) - a; break;
	case OP_adjacent_difference: OUT (NS::adjacent_difference (a, e, o)); break;
	case OP_adjacent_difference_p: OUT (NS::adjacent_difference (a, e, o, Bn (v))); break;
	case OP_adjacent_difference_in: r = NS::adjacent_difference (a, e, a) - a; break;
	case OP_swap_ranges: r = NS::swap_ranges (a, a + m, b) - b; break;
	case OP_mismatch: r = NS::mismatch (a, a + m, b).first - a; R.r[1] = NS::mismatch (a, a + m, b).second - b; break;
	case OP_mismatch_p: r = NS::mismatch (a, a + m, b, Bp (v)).first - a; R.r[1] = NS::mismatch (a, a + m, b, Bp (v)).second - b; break;
	case OP_equal: r = NS::equal (a, a + m, b); break;
	case OP_equal_p: r = NS::equal (a, a + m, b, Bp (v)); break;
	case OP_transform2: OUT (NS::transform (a, a + m, b, o, Bn (v))); break;
	case OP_inner_product: r = NS::inner_product (a, a + m, b, V).k; break;
	case OP_inner_product_p: r = NS::inner_product (a, a + m, b, V, Bn (v), Bn (1)).k; break;
	case OP_iter_swap: if (n && nb) NS::iter_swap (a, b); break;
	case OP_search: r = NS::search (a, e, b, be) - a; break;
	case OP_search_p: r = NS::search (a, e, b, be, Bp (1)) - a; break;
	case OP_find_end: r = NS::find_end (a, e, b, be) - a; break;
	case OP_find_end_p: r = NS::find_end (a, e, b, be, Bp (1)) - a; break;
	case OP_find_first_of: r = NS::find_first_of (a, e, b, be) - a; break;
	case OP_find_first_of_p: r = NS::find_first_of (a, e, b, be, Bp (1)) - a; break;
	case OP_lexicographical_compare: r = NS::lexicographical_compare (a, e, b, be); break;
	case OP_lexicographical_compare_p: r = NS::lexicographical_compare (a, e, b, be, Cm (-1)); break;
	case OP_merge: OUT (NS::merge (a, e, b, be, o)); break;
	case OP_includes: r = NS::includes (a, e, b, be); break;
	case OP_includes_p: r = NS::includes (a, e, b, be, Cm (-1)); break;
	case OP_set_union: OUT (NS::set_union (a, e, b, be, o)); break;
	case OP_set_union_p: OUT (NS::set_union (a, e, b, be, o, Cm (-1))); break;
	case OP_set_intersection: OUT (NS::set_intersection (a, e, b, be, o)); break;
	case OP_set_intersection_p: OUT (NS::set_intersection (a, e, b, be, o, Cm (-1))); break;
	case OP_set_difference: OUT (NS::set_difference (a, e, b, be, o)); break;
	case OP_set_difference_p: OUT (NS::set_difference (a, e, b, be, o, Cm (-1))); break;
	case OP_set_symmetric_difference: OUT (NS::set_symmetric_difference (a, e, b, be, o)); break;
	case OP_set_symmetric_difference_p: OUT (NS::set_symmetric_difference (a, e, b, be, o, Cm (-1))); break;
    }
    #undef OUT
    return R;
}
#endif
