// an arbitrary convex solver for the contracts on trajopt_sco: it records what it is told
#pragma once
#include "sco_spec.h"
#include <trajopt_sco/modeling.hpp>
namespace sco_lemmas
{
class AnyModel : public Model
{
public:
  Var addVar(const std::string& name) override
  {
    vars_.push_back(Var(std::make_shared<VarRep>(vars_.size(), name, this)));
    lb_.push_back(-static_cast<double>(INFINITY));
    ub_.push_back(static_cast<double>(INFINITY));
    return vars_.back();
  }
  Var addVar(const std::string& name, double lb, double ub) override
  {
    vars_.push_back(Var(std::make_shared<VarRep>(vars_.size(), name, this)));
    lb_.push_back(lb);
    ub_.push_back(ub);
    return vars_.back();
  }
  Cnt addEqCnt(const AffExpr& e, const std::string&) override
  {
    cnts_.push_back(Cnt(std::make_shared<CntRep>(cnts_.size(), this)));
    exprs_.push_back(e);
    eq_.push_back(1);
    return cnts_.back();
  }
  Cnt addIneqCnt(const AffExpr& e, const std::string&) override
  {
    cnts_.push_back(Cnt(std::make_shared<CntRep>(cnts_.size(), this)));
    exprs_.push_back(e);
    eq_.push_back(0);
    return cnts_.back();
  }
  Cnt addIneqCnt(const QuadExpr&, const std::string&) override { return Cnt(); }
  void removeVars(const VarVector& v) override { gone_vars_.insert(gone_vars_.end(), v.begin(), v.end()); }
  void removeCnts(const CntVector& c) override { gone_cnts_.insert(gone_cnts_.end(), c.begin(), c.end()); }
  void update() override {}
  void setVarBounds(const VarVector& v, const DblVec& l, const DblVec& u) override
  {
    bounded_ = v;
    new_lb_ = l;
    new_ub_ = u;
  }
  DblVec getVarValues(const VarVector& v) const override { return DblVec(v.size(), 0.0); }
  CvxOptStatus optimize() override { return CVX_SOLVED; }
  void setObjective(const AffExpr&) override {}
  void setObjective(const QuadExpr& q) override { objective_ = q; }
  void writeToFile(const std::string&) const override {}
  VarVector getVars() const override { return vars_; }

  VarVector vars_, gone_vars_, bounded_;
  CntVector cnts_, gone_cnts_;
  DblVec lb_, ub_, new_lb_, new_ub_;
  std::vector<AffExpr> exprs_;
  std::vector<int> eq_;
  QuadExpr objective_;
};
/// any problem: variables with arbitrary limits
class AnyProb : public OptProb
{
public:
  AnyProb(Model::Ptr m, const VarVector& v, const DblVec& l, const DblVec& u) : OptProb(ModelType::BPMPD)
  {
    model_ = std::move(m);
    vars_ = v;
    lower_bounds_ = l;
    upper_bounds_ = u;
  }
};
}  // namespace sco_lemmas
