// Declarations only: the part of ROOT's interface that oxsx names, so that the sources which
// need ROOT can be parsed and type-checked here. Never compiled into anything that runs.
#ifndef OXSX_VERIF_ROOT_STUBS
#define OXSX_VERIF_ROOT_STUBS
#include <string>
#include <vector>
#include <cstddef>
#include <algorithm>
typedef int Int_t; typedef double Double_t; typedef float Float_t; typedef bool Bool_t; typedef long long Long64_t; typedef const char *Option_t;
enum EColor { kWhite=0, kBlack=1, kGray=920, kRed=632, kGreen=416, kBlue=600, kYellow=400, kMagenta=616, kCyan=432, kOrange=800, kSpring=820, kTeal=840, kAzure=860, kViolet=880, kPink=900 };
class TDirectory;
class TObject { public: TObject(); TObject(const TObject&); TObject& operator=(const TObject&); virtual ~TObject(); virtual const char *GetName() const; virtual void Draw(Option_t o = ""); virtual void Clear(Option_t o = ""); virtual Int_t Write(const char *n = 0, Int_t o = 0, Int_t b = 0); virtual void SaveAs(const char *n = "", Option_t o = "") const; virtual bool IsZombie() const; virtual void Print(Option_t o = "") const; };
class TNamed : public TObject { public: virtual const char *GetTitle() const; virtual void SetTitle(const char *); virtual void SetName(const char *); };
class TObjArray : public TObject { public: TObject *At(Int_t) const; Int_t GetEntries() const; Int_t GetEntriesFast() const; };
class TDirectory : public TNamed { public: virtual TObject *Get(const char *); virtual bool cd(const char *p = 0); };
class TFile : public TDirectory { public: TFile(const char *, Option_t o = "", const char *t = "", Int_t c = 1); virtual ~TFile(); virtual void Close(Option_t o = ""); virtual bool IsOpen() const; };
class TBranch : public TNamed {};
class TLeaf : public TNamed { public: double GetValue(Int_t i = 0) const; };
class TTree : public TNamed { public: TTree(); TTree(const char *, const char *); virtual ~TTree(); Int_t GetEntry(Long64_t, Int_t a = 0); Long64_t GetEntries() const; TObjArray *GetListOfBranches(); TObjArray *GetListOfLeaves(); TLeaf *GetLeaf(const char *); Int_t GetNbranches(); Int_t LoadBaskets(Long64_t m = 0); void DropBaskets(); Int_t Fill(); TBranch *Branch(const char *, void *, const char *l = 0, Int_t b = 32000); };
class TNtuple : public TTree { public: TNtuple(); TNtuple(const char *, const char *, const char *, Int_t b = 32000); Int_t Fill(const Float_t *); Float_t *GetArgs() const; Int_t GetNvar() const; };
class TAxis : public TNamed { public: double GetBinLowEdge(Int_t) const; double GetBinUpEdge(Int_t) const; };
class TH1 : public TNamed { public: virtual TAxis *GetXaxis() const; virtual TAxis *GetYaxis() const; virtual TAxis *GetZaxis() const; virtual void SetDirectory(TDirectory *); virtual void SetBinContent(Int_t, Double_t); virtual double GetBinContent(Int_t) const; virtual Int_t GetNbinsX() const; virtual Int_t GetNbinsY() const; virtual Int_t GetNbinsZ() const; virtual Int_t GetBin(Int_t, Int_t y = 0, Int_t z = 0) const; virtual void SetLineColor(int); virtual void SetFillColor(int); virtual Int_t Fill(Double_t, Double_t w); };
class TH1D : public TH1 { public: TH1D(); TH1D(const TH1D&); TH1D(const char *, const char *, Int_t, const Double_t *); TH1D(const char *, const char *, Int_t, Double_t, Double_t); };
class TH2D : public TH1 { public: TH2D(); TH2D(const TH2D&); TH2D(const char *, const char *, Int_t, const Double_t *, Int_t, const Double_t *); using TH1::Fill; Int_t Fill(Double_t, Double_t, Double_t w); };
class TH3D : public TH1 { public: TH3D(); TH3D(const TH3D&); TH3D(const char *, const char *, Int_t, const Double_t *, Int_t, const Double_t *, Int_t, const Double_t *); Int_t Fill(Double_t, Double_t, Double_t, Double_t w); };
class TLegend : public TObject { public: TLegend(double, double, double, double); TObject *AddEntry(const TObject *, const char *, Option_t o = ""); };
class TCanvas : public TNamed { public: TCanvas(); TObject *cd(Int_t s = 0); };
class THStack : public TNamed { public: THStack(); void Add(TH1 *, Option_t o = ""); };
class TRandom3 : public TNamed { public: TRandom3(unsigned s = 4357); TRandom3(const TRandom3&); double Rndm(); double Gaus(double, double); int Poisson(double); void SetSeed(unsigned long); unsigned GetSeed() const; };
class TStopwatch : public TObject { public: void Start(bool r = true); void Stop(); double RealTime(); double CpuTime(); };
namespace ROOT { namespace Minuit2 {
class GenericFunction { public: virtual ~GenericFunction(); virtual double operator()(const std::vector<double> &) const = 0; };
class FCNBase : public GenericFunction { public: virtual ~FCNBase(); virtual double Up() const = 0; };
class MnUserParameters { public: MnUserParameters(const std::vector<double> &, const std::vector<double> &); void SetLimits(unsigned, double, double); };
class MnStrategy { public: MnStrategy(unsigned); };
class MnUserCovariance { public: const std::vector<double> &Data() const; };
class FunctionMinimum { public: bool IsValid() const; double Fval() const; const MnUserCovariance &UserCovariance() const; };
class MnApplication { public: virtual ~MnApplication(); virtual FunctionMinimum operator()(unsigned m = 0, double t = 0.1); void Fix(unsigned); void Release(unsigned); std::vector<double> Params() const; std::vector<double> Errors() const; };
class MnMigrad : public MnApplication { public: MnMigrad(const FCNBase &, const MnUserParameters &, const MnStrategy &); };
class MnMinimize : public MnApplication { public: MnMinimize(const FCNBase &, const MnUserParameters &, const MnStrategy &); };
class MnSimplex : public MnApplication { public: MnSimplex(const FCNBase &, const MnUserParameters &, const MnStrategy &); };
} }
#endif
