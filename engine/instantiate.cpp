// Instantiates the header-only templates of oxsx so that their bodies are type-checked and
// reach the fact base. Parsed only.
#include <vector>
#include <map>
#include <set>
#include <list>
#include <string>
#include <BinnedNLLH.h>
#include <BinnedED.h>
#include <ParameterDict.h>
#include <ContainerTools.hpp>
#include <ContainerParameter.h>
#include <ParameterManager.h>
#include <Gradient.h>
#include <HMCEnergy.h>
#include <SigmoidBoundary.h>
#include <HamiltonianSampler.h>
#include <LeapFrog.h>
#include <HistTools.h>
#include <Combinations.hpp>

template class HMCEnergy<TestStatistic>;
template class SigmoidBoundary<HMCEnergy<TestStatistic>>;
template class Gradient<HMCEnergy<TestStatistic>>;
template class HamiltonianSampler<HMCEnergy<TestStatistic>>;
template class ContainerParameter<std::vector<double>>;
template class ContainerParameter<std::list<double>>;

typedef Gradient<HMCEnergy<TestStatistic>> Grad;
void oxsx_verif_use(Grad &g, ParameterDict &a, ParameterDict &b, std::vector<double> &v)
{
    LeapFrog::Hamiltonian(a, b, a, 0.1, g);
    LeapFrog::Hamiltonian(a, b, a, 0.1, g, 3);
    LeapFrog::Hamiltonian(a, b, a, 0.1, g, 3, a, b);
    ContainerTools::GetValues(a);
    ContainerTools::HasSameKeys(a, b);
    ContainerTools::CompareKeys(a, b);
}

typedef std::vector<std::string> Names;
void oxsx_verif_views(const Histogram &h, const BinnedED &d, const AxisCollection &x, const Names &n, const std::set<std::pair<std::string, std::string>> &s, ParameterDict &p,
                      const std::vector<double> &v, const std::set<std::string> &k, const std::map<std::string, size_t> &m, const std::set<size_t> &z)
{
    HistTools::GetVisualisableProjections(h);
    HistTools::GetVisualisableProjections(d);
    HistTools::Get1DSlices(h, n[0]);
    HistTools::Get1DSlices(d, n[0]);
    HistTools::MakeAllHists(x, n);
    HistTools::MakeAllHists(x, k);
    HistTools::MakeAllHists(x, s);
    Combinations::AllCombsNoDiag(n);
    Combinations::AllCombsNoDiag(k);
    Combinations::Range<size_t>(3, 1);
    Combinations::Range<int>(3);
    ContainerTools::CreateMap(n, v);
    ContainerTools::GetKeys(p);
    ContainerTools::GetValues(p);
    ContainerTools::GetValues(p, n);
    ContainerTools::GetValues(p, k);
    ContainerTools::SetValues(p, n, v);
    ContainerTools::HasKey(p, n[0]);
    ContainerTools::HasSameKeys(p, m);
    ContainerTools::CompareKeys(p, m);
    ContainerTools::ToString(n);
}
