// The ways a caller can write a list of texts: forms 1 to 7.
#ifndef LISTS_H_
#define LISTS_H_

inline blet::args::Vector listHelper(const std::vector<const char*>& t) {
    switch (t.size()) {
        case 0: return blet::Args::vector();
        case 1: return blet::Args::vector(t[0]);
        case 2: return blet::Args::vector(t[0], t[1]);
        case 3: return blet::Args::vector(t[0], t[1], t[2]);
        case 4: return blet::Args::vector(t[0], t[1], t[2], t[3]);
        case 5: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4]);
        case 6: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5]);
        case 7: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6]);
        case 8: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]);
        case 9: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]);
        case 10: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9]);
        case 11: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10]);
        case 12: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11]);
        case 13: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12]);
        case 14: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13]);
        case 15: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14]);
        case 16: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15]);
        case 17: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16]);
        case 18: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16], t[17]);
        case 19: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16], t[17], t[18]);
        case 20: return blet::Args::vector(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16], t[17], t[18], t[19]);
        default: break;
    }
    return blet::args::Vector();
}
template<std::size_t S>
inline blet::args::Vector listArray(unsigned form, const std::vector<const char*>& t) {
    if (form == 4) {
        const char* a[S];
        for (std::size_t i = 0; i < S; ++i) a[i] = t[i];
        return blet::args::Vector(a);
    }
    if (form == 5) {
        struct { const char* a[S]; } s;
        for (std::size_t i = 0; i < S; ++i) s.a[i] = t[i];
        const char* const(&a)[S] = s.a;
        return blet::args::Vector(a);
    }
    std::string a[S];
    for (std::size_t i = 0; i < S; ++i) a[i] = t[i];
    return blet::args::Vector(a);
}
inline blet::args::Vector listArrays(unsigned form, const std::vector<const char*>& t) {
    switch (t.size()) {
        case 1: return listArray<1>(form, t);
        case 2: return listArray<2>(form, t);
        case 3: return listArray<3>(form, t);
        case 4: return listArray<4>(form, t);
        case 5: return listArray<5>(form, t);
        case 6: return listArray<6>(form, t);
        case 7: return listArray<7>(form, t);
        case 8: return listArray<8>(form, t);
        case 9: return listArray<9>(form, t);
        case 10: return listArray<10>(form, t);
        case 11: return listArray<11>(form, t);
        case 12: return listArray<12>(form, t);
        case 13: return listArray<13>(form, t);
        case 14: return listArray<14>(form, t);
        case 15: return listArray<15>(form, t);
        case 16: return listArray<16>(form, t);
        case 17: return listArray<17>(form, t);
        case 18: return listArray<18>(form, t);
        case 19: return listArray<19>(form, t);
        case 20: return listArray<20>(form, t);
        case 21: return listArray<21>(form, t);
        case 22: return listArray<22>(form, t);
        case 23: return listArray<23>(form, t);
        case 24: return listArray<24>(form, t);
        default: break;
    }
    return blet::args::Vector();
}
#if __cplusplus >= 201103L
inline blet::args::Vector listBraces(const std::vector<const char*>& t) {
    switch (t.size()) {
        case 2: return blet::args::Vector({std::string(t[0]), std::string(t[1])});
        case 3: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2])});
        case 4: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3])});
        case 5: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4])});
        case 6: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5])});
        case 7: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6])});
        case 8: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7])});
        case 9: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8])});
        case 10: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9])});
        case 11: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10])});
        case 12: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11])});
        case 13: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12])});
        case 14: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13])});
        case 15: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14])});
        case 16: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15])});
        case 17: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16])});
        case 18: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17])});
        case 19: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18])});
        case 20: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18]), std::string(t[19])});
        case 21: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18]), std::string(t[19]), std::string(t[20])});
        case 22: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18]), std::string(t[19]), std::string(t[20]), std::string(t[21])});
        case 23: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18]), std::string(t[19]), std::string(t[20]), std::string(t[21]), std::string(t[22])});
        case 24: return blet::args::Vector({std::string(t[0]), std::string(t[1]), std::string(t[2]), std::string(t[3]), std::string(t[4]), std::string(t[5]), std::string(t[6]), std::string(t[7]), std::string(t[8]), std::string(t[9]), std::string(t[10]), std::string(t[11]), std::string(t[12]), std::string(t[13]), std::string(t[14]), std::string(t[15]), std::string(t[16]), std::string(t[17]), std::string(t[18]), std::string(t[19]), std::string(t[20]), std::string(t[21]), std::string(t[22]), std::string(t[23])});
        default: break;
    }
    return blet::args::Vector();
}
#endif

#endif
