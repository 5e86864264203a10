// instantiates the radial integration
#include "Wavefunction.hpp"
template double IntegrateRadialElement<Numerov>(QuantumDefect const &, int, QuantumDefect const &);
template double IntegrateRadialElement<Whittaker>(QuantumDefect const &, int, QuantumDefect const &);
