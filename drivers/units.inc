DR(T, db)(T g) { return neo::amplitude_to_db(g); }
RR(T, db)(T g) { if (g <= T(0)) return T(-144); T const v = T(20) * std::log10(g); return T(-144) < v ? v : T(-144); }
DR(T, dbf)(T g, T fl) { return neo::amplitude_to_db(g, fl); }
RR(T, dbf)(T g, T fl) { if (g <= T(0)) return fl; T const v = T(20) * std::log10(g); return fl < v ? v : fl; }
DR(T, dbacc)(T g, T fl) { return neo::amplitude_to_db<neo::precision::accurate>(g, fl); }
RR(T, dbacc)(T g, T fl) { if (g <= T(0)) return fl; T const v = T(20) * std::log10(g); return fl < v ? v : fl; }
DR(T, dbest)(T g) { return neo::amplitude_to_db<neo::precision::estimate>(g); }
RR(T, dbest)(T g) { if (g <= T(0)) return T(-144); T const v = T(20) * std::log10(g); return T(-144) < v ? v : T(-144); }
DR(T, dbestf)(T g, T fl) { return neo::amplitude_to_db<neo::precision::estimate>(g, fl); }
RR(T, dbestf)(T g, T fl) { if (g <= T(0)) return fl; T const v = T(20) * std::log10(g); return fl < v ? v : fl; }
// A(f) = 20 log10 R_A(f) + 2 dB, R_A(f) = 12194^2 f^4 / ((f^2+20.6^2) sqrt((f^2+107.7^2)(f^2+737.9^2)) (f^2+12194^2))
DR(T, aw)(T fr) { return neo::a_weighting(fr); }
RR(T, aw)(T fr)
{
    double const f = fr, q = f * f;
    double const c1 = 12194.217 * 12194.217, c2 = 20.598997 * 20.598997, c3 = 107.65265 * 107.65265, c4 = 737.86223 * 737.86223;
    double const ra = c1 * q * q / ((q + c2) * std::sqrt((q + c3) * (q + c4)) * (q + c1));
    return static_cast<T>(2.0 + 20.0 * std::log10(ra));
}
#undef T
#undef S
#undef E
