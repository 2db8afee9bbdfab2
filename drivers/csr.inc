#define N_ neo::scalar_complex<T>
DR(T, get)(T const* P(v), ull const* c_l, ull const* r_l, uz rows, uz cols, ull i, ull j) { return make<T>(rows, cols, P(v), c_l, r_l, 0)(i, j); }
RR(T, get)(T const* P(v), ull const* c_l, ull const* r_l, uz rows, uz cols, ull i, ull j)
{
    for (ull k = r_l[i]; k < r_l[i + 1]; ++k) if (c_l[k] == j) return P(v)[k];
    return T(0);
}
D(getc)(T const* P(v), ull const* c_l, ull const* r_l, T* P(o), uz rows, uz cols, ull i, ull j) { auto const z = make<N_>(rows, cols, cx<N_>(P(v)), c_l, r_l, 0)(i, j); P(o)[0] = z.real(); P(o)[1] = z.imag(); }
R(getc)(T const* P(v), ull const* c_l, ull const* r_l, T* P(o), uz rows, uz cols, ull i, ull j)
{
    P(o)[0] = 0; P(o)[1] = 0;
    for (ull k = r_l[i]; k < r_l[i + 1]; ++k) if (c_l[k] == j) { P(o)[0] = P(v)[2 * k]; P(o)[1] = P(v)[2 * k + 1]; return; }
}
// insertion: overwrite the stored entry or insert value and column at the sorted position and shift the following row starts
D(ins)(T* P(v), ull* c_l, ull* r_l, ull* vp_l, T* P(vv), ull* cp_l, ull* cv_l, uz rows, uz cols, uz nnz, ull i, ull j, T x)
{
    auto m = make<T>(rows, cols, P(v), c_l, r_l, nnz);
    m._values.ipos = vp_l; m._values.ival = P(vv);
    m._colum_indices.ipos = cp_l; m._colum_indices.ival = cv_l;
    m.insert(i, j, x);
}
R(ins)(T* P(v), ull* c_l, ull* r_l, ull* vp_l, T* P(vv), ull* cp_l, ull* cv_l, uz rows, uz cols, uz nnz, ull i, ull j, T x)
{
    ull const a = r_l[i], b = r_l[i + 1];
    ull k = a;
    while (k < b && c_l[k] < j) ++k;
    bool const found = k < b && c_l[k] == j;
    if (found) { P(v)[k] = x; return; }
    *vp_l = k; *P(vv) = x; *cp_l = k; *cv_l = j;
    for (ull q = i + 1; q < rows + 1; ++q) r_l[q] += 1;
}
// construction: row starts, columns and values of the kept elements in row-major order
#define KEEP(r, c, v) (keep_b[(r) * cols + (c)] != 0 && (v) > lim)
D(ctor)(T const* P(x), unsigned char const* keep_b, ull* o_l, uz rows, uz cols, T lim)
{
    csr<T> m(M<T const>(P(x), rows, cols), [=](ull r, ull c, T v) { return KEEP(r, c, v); });
    o_l[0] = m.value_container().size(); o_l[1] = m.column_container().size(); o_l[2] = m.row_container().size();
    o_l[3] = m.rows(); o_l[4] = m.columns();
}
R(ctor)(T const* P(x), unsigned char const* keep_b, ull* o_l, uz rows, uz cols, T lim)
{
    ull n = 0;
    for (uz r = 0; r < rows; ++r) {
        row_store_l[r] = n;
        for (uz c = 0; c < cols; ++c) {
            T const v = P(x)[r * cols + c];
            if (KEEP(r, c, v)) { store<T>::p()[n] = v; col_store_l[n] = c; ++n; }
        }
    }
    row_store_l[rows] = n;
    o_l[0] = n; o_l[1] = n; o_l[2] = rows + 1; o_l[3] = rows; o_l[4] = cols;
}
// multiply-add with one sparse row
D(ma)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T const* P(z), T* P(o), uz rows, uz cols, ull i)
{
    auto m = make<T>(rows, cols, P(v), c_l, r_l, 0);
    neo::multiply_add(V<T const>(P(x), cols), m, i, V<T const>(P(z), cols), V<T>(P(o), cols));
}
R(ma)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T const* P(z), T* P(o), uz rows, uz cols, ull i)
{
    for (ull k = r_l[i]; k < r_l[i + 1]; ++k) P(o)[c_l[k]] = P(x)[c_l[k]] * P(v)[k] + P(z)[c_l[k]];
}
D(mai)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T* P(o), uz rows, uz cols, ull i)
{
    auto m = make<T>(rows, cols, P(v), c_l, r_l, 0);
    neo::multiply_add(V<T const>(P(x), cols), m, i, V<T>(P(o), cols), V<T>(P(o), cols));
}
R(mai)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T* P(o), uz rows, uz cols, ull i)
{
    for (ull k = r_l[i]; k < r_l[i + 1]; ++k) { ull const c = c_l[k]; P(o)[c] = P(x)[c] * P(v)[k] + P(o)[c]; }
}
D(maic)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T* P(o), uz rows, uz cols, ull i)
{
    auto m = make<N_>(rows, cols, cx<N_>(P(v)), c_l, r_l, 0);
    neo::multiply_add(V<N_ const>(cx<N_>(P(x)), cols), m, i, V<N_>(cx<N_>(P(o)), cols), V<N_>(cx<N_>(P(o)), cols));
}
R(maic)(T const* P(v), ull const* c_l, ull const* r_l, T const* P(x), T* P(o), uz rows, uz cols, ull i)
{
    for (ull k = r_l[i]; k < r_l[i + 1]; ++k) {
        ull const c = c_l[k];
        T const re = P(x)[2 * c] * P(v)[2 * k] - P(x)[2 * c + 1] * P(v)[2 * k + 1] + P(o)[2 * c];
        T const im = P(x)[2 * c] * P(v)[2 * k + 1] + P(x)[2 * c + 1] * P(v)[2 * k] + P(o)[2 * c + 1];
        P(o)[2 * c] = re; P(o)[2 * c + 1] = im;
    }
}
#undef KEEP
#undef N_
#undef T
#undef S
#undef E
