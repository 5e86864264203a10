// instantiates the serialize members of the classes with an archive that saves and one that loads
#include <cstddef>
#include <cstdint>
#include <string>
using std::size_t;
#include "State.hpp"
#include "StateOld.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <cereal/access.hpp>
#include <cereal/cereal.hpp>
#include <complex>
#include <type_traits>
struct Saver {
    using is_saving = std::true_type;
    using is_loading = std::false_type;
    template <class T>
    Saver &operator&(T &&x);
    template <class T>
    Saver &operator()(T &&x);
};
struct Loader {
    using is_saving = std::false_type;
    using is_loading = std::true_type;
    template <class T>
    Loader &operator&(T &&x);
    template <class T>
    Loader &operator()(T &&x);
};
template <class T>
void vf_save(Saver &a, T &x) {
    cereal::access::member_serialize(a, x, 0u);
}
template <class T>
void vf_load(Loader &a, T &x) {
    cereal::access::member_serialize(a, x, 0u);
}
#define BOTH(...)                                 \
    template void vf_save<__VA_ARGS__>(Saver &, __VA_ARGS__ &); \
    template void vf_load<__VA_ARGS__>(Loader &, __VA_ARGS__ &);
using C = std::complex<double>;
BOTH(StateOne)
BOTH(StateTwo)
BOTH(StateOneOld)
BOTH(StateTwoOld)
BOTH(enumerated_state<StateOne>)
BOTH(enumerated_state<StateTwo>)
BOTH(MatrixElementCache::CacheKey_cache_radial)
BOTH(MatrixElementCache::CacheKey_cache_angular)
BOTH(MatrixElementCache::CacheKey_cache_reduced_commutes)
BOTH(MatrixElementCache::CacheKey_cache_reduced_multipole)
BOTH(MatrixElementCache)
BOTH(SystemBase<double, StateOne>)
BOTH(SystemBase<double, StateTwo>)
BOTH(SystemBase<C, StateOne>)
BOTH(SystemBase<C, StateTwo>)
BOTH(SystemOne<double>)
BOTH(SystemOne<C>)
BOTH(SystemTwo<double>)
BOTH(SystemTwo<C>)
template <class T>
void vf_states(Saver &a, Loader &b, typename states_set<T>::type &x) {
    cereal::save(a, x);
    cereal::load(b, x);
}
template void vf_states<StateOne>(Saver &, Loader &, typename states_set<StateOne>::type &);
template void vf_states<StateTwo>(Saver &, Loader &, typename states_set<StateTwo>::type &);
struct SaverOfText : cereal::traits::TextArchive {
    using is_saving = std::true_type;
    using is_loading = std::false_type;
    template <class T>
    SaverOfText &operator()(T &&x);
};
struct LoaderOfText : cereal::traits::TextArchive {
    using is_saving = std::false_type;
    using is_loading = std::true_type;
    template <class T>
    LoaderOfText &operator()(T &&x);
};
template <class T>
void vf_matrix(T &x) {
    Saver a;
    Loader b;
    cereal::serialize(a, x);
    cereal::serialize(b, x);
}
using Sd = Eigen::SparseMatrix<double>;
using Sc = Eigen::SparseMatrix<C>;
template void vf_matrix(Sd &);
template void vf_matrix(Sc &);
template void vf_matrix(Eigen::MatrixXd &);
template void vf_matrix(Eigen::MatrixXcd &);
template <class T>
void vf_array(ArrayData<T, int> &x, ArrayData<T, Eigen::Index> &y) {
    Saver a;
    Loader b;
    SaverOfText c;
    LoaderOfText d;
    x.serialize(a), x.serialize(b), x.serialize(c), x.serialize(d);
    y.serialize(a), y.serialize(b), y.serialize(c), y.serialize(d);
}
template void vf_array(ArrayData<double, int> &, ArrayData<double, Eigen::Index> &);
template void vf_array(ArrayData<int, int> &, ArrayData<int, Eigen::Index> &);
template void vf_array(ArrayData<C, int> &, ArrayData<C, Eigen::Index> &);
