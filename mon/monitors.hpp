// Online monitors: each judges one observed Update.
#pragma once
#include "engine.hpp"
#include "ref.hpp"
namespace mon {
#define TOL_MASS(c) ((c).kind[1]=='2'?1e-3:3e-6)

// Was this Update a single internal step?  (fixed step at least as long as the interval, or the adaptive rule)
inline bool oneStep(const Obs&o){ if(!o.c.adaptive) return o.c.fr_s<=o.c.ts_s+1e-9; if(o.a.pond>0&&o.a.pond<1e-9) return false; double dt=o.Pr>10||o.a.pond>0?o.c.ts_s:o.Pr>0?2*o.c.ts_s:o.c.fr_s; return o.c.fr_s<=dt+1e-9; }

// --- water balance of one Update
inline void mMass(Ctx&x,const Obs&o){
  double S0=storage(o.c,o.a.f),S1=storage(o.c,o.s.f); double e=S0+o.a.pond+o.P-S1-o.s.pond-100*(o.s.R+o.s.A+o.s.D);
  x.met("mass_residual_cm",std::fabs(e)); if(!(std::fabs(e)<=TOL_MASS(o.c))) x.viol("mass","water balance of one Update is off by "+g17(e)+" cm"+at(o));
  double e2=100*(o.a.S-o.s.S)+o.a.pond+o.P-o.s.pond-100*(o.s.R+o.s.A+o.s.D);
  if(!(std::fabs(e2)<=TOL_MASS(o.c))) x.viol("mass_bmi","water balance from the published storage is off by "+g17(e2)+" cm"+at(o));
  if(!(std::fabs(100*o.s.MB)<=1e-4)) x.viol("mass_reported","reported mass balance error "+g17(100*o.s.MB)+" cm"+at(o));
  double n=std::min({o.s.R,o.s.A,o.s.D}); if(!(n>=-(o.c.kind[1]=='2'?std::max(1e-5,1.5e-6*(o.s.steps-o.a.steps)):1e-7))) x.viol("neg_flux","negative outgoing flux "+g17(n)+" m"+at(o));
}
// --- surface partition
inline void mSurface(Ctx&x,const Obs&o){
  double e=o.P+o.a.pond-o.s.pond-100*(o.s.R+o.s.I); x.met("surface_residual_cm",std::fabs(e));
  if(!(std::fabs(e)<=1e-9)) x.viol("partition","rain+ponded != infiltration+runoff+ponded by "+g17(e)+" cm"+at(o));
  if(!(o.s.pond>=0&&o.s.pond<=o.c.pond_max+1e-9)) x.viol("pond_range","ponded water "+g17(o.s.pond)+" cm outside [0,"+g17(o.c.pond_max)+"]"+at(o));
  if(!(o.s.R>=0)) x.viol("runoff_neg","negative runoff "+g17(o.s.R)+at(o));
  if(!(o.s.I>=-1e-10)) x.viol("infil_neg","negative infiltration "+g17(o.s.I)+at(o));
  if(o.P+o.a.pond<=0&&(o.s.R!=0||o.s.I>1e-12)) x.viol("from_nothing","infiltration or runoff without surface water"+at(o));
  if(oneStep(o)){ x.cnt("single_step_updates");
    if(o.s.R>1e-12&&!(o.s.pond>=o.c.pond_max-1e-9)) x.viol("early_runoff","runoff "+g17(100*o.s.R)+" cm although ponding "+g17(o.s.pond)+" is below its maximum "+g17(o.c.pond_max)+at(o));
    double room=maxStorage(o.c)-storage(o.c,o.a.f); double lim=std::max(room,0.0)+100*(o.s.A+o.s.D); x.cnt("room_checks");
    if(!(100*o.s.I<=lim+1e-6)) x.viol("overfill","infiltration "+g17(100*o.s.I)+" cm exceeds free pore space "+g17(room)+at(o)); }
}
// --- bounds
inline void mBounds(Ctx&x,const Obs&o){
  for(auto&w:o.s.f){ x.cnt("fronts_checked"); const Soil&s=o.c.soil(std::min(std::max(w.layer,1),o.c.nl()));
    if(!std::isfinite(w.theta)||!std::isfinite(w.psi)||!std::isfinite(w.depth)||!std::isfinite(w.K)||!std::isfinite(w.dzdt)) { x.viol("nonfinite","non-finite front state theta="+g17(w.theta)+" psi="+g17(w.psi)+" depth="+g17(w.depth)+" K="+g17(w.K)+" dzdt="+g17(w.dzdt)+at(o)); continue; }
    if(!(w.theta>=s.thr-1e-12&&w.theta<=s.the+1e-12)) x.viol("theta","moisture "+g17(w.theta)+" outside ["+g17(s.thr)+","+g17(s.the)+"]"+at(o));
    if(!(w.psi>=0)) x.viol("psi","negative capillary head "+g17(w.psi)+at(o));
    if(!(w.K>=0)) x.viol("K","negative conductivity "+g17(w.K)+at(o));
    if(!(w.dzdt>=0&&w.dzdt<=1e4)) x.viol("dzdt","front speed "+g17(w.dzdt)+" outside [0,1e4] cm/h"+at(o)); }
  double S=100*o.s.S; if(!(S>=minStorage(o.c)-1e-9&&S<=maxStorage(o.c)+1e-9)) x.viol("storage","storage "+g17(S)+" cm outside ["+g17(minStorage(o.c))+","+g17(maxStorage(o.c))+"]"+at(o));
  for(double v:{o.s.P,o.s.E,o.s.A,o.s.R,o.s.G,o.s.Q,o.s.I,o.s.D,o.s.W,o.s.MB,o.s.S}) if(!std::isfinite(v)) x.viol("nonfinite_out","non-finite BMI output"+at(o));
  for(size_t i=0;i<o.s.th.size();i++) if(!std::isfinite(o.s.th[i])||!std::isfinite(o.s.dz[i])) x.viol("nonfinite_out","non-finite BMI profile"+at(o));
  if(!(o.s.G>=-1e-15&&o.s.Q>=-1e-15)) x.viol("neg_out","negative routed discharge"+at(o));
}
// --- profile structure
inline void mProfile(Ctx&x,const Obs&o){
  auto&f=o.s.f; int nl=o.c.nl(); std::vector<int> nb(nl+1,0);
  if(f.size()<(size_t)nl){ x.viol("too_few","fewer fronts than layers"+at(o)); return; }
  for(size_t j=0;j<f.size();j++){ auto&w=f[j];
    if(w.num!=(int)j+1) x.viol("numbering","front "+std::to_string(j+1)+" is numbered "+std::to_string(w.num)+at(o));
    if(w.layer<1||w.layer>nl){ x.viol("layer","front in layer "+std::to_string(w.layer)+at(o)); return; }
    if(w.bot){ nb[w.layer]++; if(!(std::fabs(w.depth-o.c.cum(w.layer))<=1e-6)) x.viol("bottom_depth","bottom front of layer "+std::to_string(w.layer)+" at "+g17(w.depth)+" not at layer bottom "+g17(o.c.cum(w.layer))+at(o)); }
    if(w.layer>1?!(w.depth>=o.c.cum(w.layer-1)):!(w.depth>0)) x.viol("above_layer","front at "+g17(w.depth)+" above the top of its layer "+g17(o.c.cum(w.layer-1))+at(o));
    bool lastAbove=j+1<f.size()&&f[j+1].bot&&f[j+1].layer==w.layer;   // may overshoot its layer bottom until it crosses in the next step
    bool again=o.a.f.size()==f.size()&&o.a.f[j].layer==w.layer&&!o.a.f[j].bot;
    if(!lastAbove&&!(w.depth<=o.c.cum(w.layer)+1e-6)) x.cnt("transient_below_layer"); if(!lastAbove&&again&&o.a.f[j].depth>o.c.cum(w.layer)+1e-6&&!(w.depth<=o.c.cum(w.layer)+1e-6)) x.viol("below_layer","front at "+g17(w.depth)+" below the bottom of its layer "+g17(o.c.cum(w.layer))+at(o));
    if(j+1<f.size()){ auto&y=f[j+1];
      if(y.layer<w.layer||y.layer>w.layer+1) x.viol("layer_order","layers not consecutive"+at(o));
      if(y.layer==w.layer){ x.cnt("same_layer_pairs"); if(w.bot) x.viol("bottom_not_last","bottom front above another front of the same layer"+at(o));
        if(!lastAbove&&!(w.depth<=y.depth+1e-9)) x.cnt("transient_disorder"); if(!lastAbove&&again&&o.a.f[j].depth>o.a.f[j+1].depth+1e-9&&!(w.depth<=y.depth+1e-9)) x.viol("order","front "+std::to_string(j+1)+" at "+g17(w.depth)+" below the next one at "+g17(y.depth)+at(o));
        if(w.depth>y.depth) x.cnt("pending_crossings");
        if(o.P==0&&lastAbove&&again&&w.depth>=y.depth&&o.a.f[j].depth>=o.a.f[j+1].depth+(w.layer==nl?0:1e-9)&&o.a.f[j+1].bot&&o.a.f[j+1].layer==w.layer) x.viol("stuck","front "+std::to_string(j+1)+" at "+g17(w.depth)+" has not passed the layer bottom at "+g17(y.depth)+" it had reached an Update before"+at(o));
        if(!(w.theta>y.theta)) x.viol("dry_over_wet","front "+std::to_string(j+1)+" ("+g17(w.theta)+") not wetter than the front below ("+g17(y.theta)+")"+at(o)); }
      else if(!w.bot) x.viol("no_bottom","deepest front of a layer does not reach its bottom"+at(o)); }
    else if(!w.bot||w.layer!=nl) x.viol("column_bottom","deepest front is not at the column bottom"+at(o)); }
  for(int l=1;l<=nl;l++) if(nb[l]!=1) x.viol("one_bottom","layer "+std::to_string(l)+" has "+std::to_string(nb[l])+" bottom fronts"+at(o));
}
// --- constitutive consistency
inline void mConst(Ctx&x,const Obs&o){
  auto&f=o.s.f; double tol=o.c.kind[1]=='2'?1e-5:1e-7;
  for(size_t j=0;j<f.size();j++){ auto&w=f[j]; if(w.layer<1||w.layer>o.c.nl()) return; const Soil&s=o.c.soil(w.layer); x.cnt("retention_checks");
    double e=std::fabs(w.theta-vgTheta(s,w.psi)); x.met("theta_psi_mismatch",e); if(!(e<=tol)) x.viol("theta_psi","moisture "+g17(w.theta)+" does not match head "+g17(w.psi)+" (expected "+g17(vgTheta(s,w.psi))+")"+at(o));
    if(!w.bot){ x.cnt("conductivity_checks"); double K=vgK(s,w.theta)*o.s.ff[w.layer],Kl=vgK(s,w.theta,-1e-14)*o.s.ff[w.layer],Kh=vgK(s,w.theta,1e-14)*o.s.ff[w.layer]; double ke=std::isnan(w.K)?1e99:std::max(0.0,std::max(Kl-w.K,w.K-Kh))/(s.Ks*o.s.ff[w.layer]); x.met("K_mismatch",ke); if(!(ke<=1e-7)) x.viol("K_theta","conductivity "+g17(w.K)+" does not match moisture (expected "+g17(K)+")"+at(o)); }
    if(j+1<f.size()&&f[j+1].layer==w.layer+1){ x.cnt("interface_checks"); double e3=std::fabs(w.theta-vgTheta(s,f[j+1].psi)); x.met("interface_mismatch",e3); if(!(e3<=tol)) x.viol("interface","head jumps across layer interface: "+g17(w.psi)+" vs "+g17(f[j+1].psi)+at(o)); } }
}
// --- infiltration capacity (no new front)
inline bool births(const Obs&o){ const Soil&s=o.c.soil(1); return !o.prevWet&&o.P>0&&o.a.pond<=1e-12&&!(o.a.f[0].theta+1e-12>=s.the); }
inline bool births_amb(const Obs&o){ const Soil&s=o.c.soil(1); double g=s.the-o.a.f[0].theta; return (g>1e-14&&g<1e-9)||(o.a.pond>0&&o.a.pond<1e-9); }
inline void mInf(Ctx&x,const Obs&o){
  if(!oneStep(o)) return; double avail=o.P+o.a.pond; if(avail<=0||births_amb(o)||births(o)) return;
  GVal G=capDriveInf(o.c,o.a.f); double room=maxStorage(o.c)-storage(o.c,o.a.f); double I=100*o.s.I; double best=1e9,ex=0;
  for(double g:{G.a,G.b}){ double fp=capacity(o.c,o.a.f,o.s.ff,o.a.pond,g)*o.fr; fp=std::min(fp,room); double e=std::min(avail,fp); if(std::fabs(e-I)<best){ best=std::fabs(e-I); ex=e; } }
  x.cnt("law_checks"); double rel=best/(1e-6+std::max(ex,I)); x.met("law_rel",rel);
  if(ex<avail-1e-12) { x.cnt(ex>=room-1e-12?"storage_limited":"capacity_limited"); if(o.a.pond>0) x.cnt("with_ponding"); x.cnt("layer"+std::to_string(o.a.f[freeFront(o.a.f)].layer)); }
  if(!(best<=1e-9+1e-6*std::max(ex,I))) x.viol("capacity","infiltration "+g17(I)+" cm, expected "+g17(ex)+" cm (available "+g17(avail)+", room "+g17(room)+")"+at(o));
}
// --- front speed
inline double pondForSpeed(const Obs&o){ if(births(o)&&!births_amb(o)) return o.s.pond>=o.c.pond_max?o.s.pond:0.0; return o.s.pond; }
inline void mSpeed(Ctx&x,const Obs&o){
  auto&f=o.s.f; bool multi=!oneStep(o); if(births_amb(o)) return; if(multi&&o.s.pond>0&&o.P>0&&!o.prevWet) return;
  double hp=pondForSpeed(o); if(multi) hp=o.s.pond;
  for(size_t j=0;j+1<f.size();j++){ auto&w=f[j]; if(w.layer<1||w.layer>o.c.nl()) return;
    if(w.bot){ x.cnt("resting_checks"); if(w.dzdt!=0) x.viol("resting","front resting on a layer bottom has speed "+g17(w.dzdt)+at(o)); continue; }
    GVal G=capillaryDrive(o.c,o.c.soil(w.layer),f[j+1].theta,w.theta); double best=1e99,ex=0; for(double g:{G.a,G.b}){ double v=frontSpeed(o.c,f,j,o.s.ff,hp,g); if(v==0) v=1e-9; v=std::min(v,1e4); double lo=std::min(v,frontSpeed(o.c,f,j,o.s.ff,hp,g,-1e-14)),hi=std::min(1e4,std::max(v,frontSpeed(o.c,f,j,o.s.ff,hp,g,1e-14))); double e=std::isnan(w.dzdt)?1e98:w.dzdt<lo?lo-w.dzdt:w.dzdt>hi?w.dzdt-hi:0; if(e<best){ best=e; ex=v; } }
    x.cnt("speed_checks"); x.cnt("speed_layer"+std::to_string(w.layer)); if(hp>0) x.cnt("speed_ponded"); double rel=best/(1e-9+std::max(ex,w.dzdt)); x.met("speed_rel",rel);
    if(!(rel<=(w.theta-f[j+1].theta<1e-2?5e-3:1e-4))) x.viol("speed","front "+std::to_string(j+1)+" (layer "+std::to_string(w.layer)+") speed "+g17(w.dzdt)+" expected "+g17(ex)+" (theta "+g17(w.theta)+" psi "+g17(w.psi)+" depth "+g17(w.depth)+" pond "+g17(hp)+")"+at(o)); }
}
// --- whole-step reference: what one internal step must do to the observed profile
inline double stepTol(const Cfg&c){ return c.kind[1]=='2'?1e-3:1e-6; }
struct StepJudge { bool usable=false, born=false; StepRef r; std::string diff; double worst=1e99; };
inline StepJudge judgeStep(const Obs&o){
  StepJudge best; if(!oneStep(o)||births_amb(o)) return best;
  bool b=births(o); double d=o.E>0?etDemand(o.c,o.a.f,o.E):0; best.born=b; std::vector<double> Gs{0}; bool amb=false;
  for(int sz=0;sz<2;sz++){ StepRef m=refMove(o.c,o.a.f,o.s.ff,o.fr,b?0.0:100*o.s.I,d,sz);
    if(b){ const Soil&s=o.c.soil(1); if(m.f[0].theta>=s.the-1e-9) m.amb=true,m.why="birth on saturated surface"; GVal G=m.amb?GVal{0,0}:capillaryDrive(o.c,s,m.f[0].theta,s.the); Gs={G.a,G.b};
      // next to the residual moisture the numerical drive changes with the last digits of the moisture, which the reference does not share with the model
      if(!m.amb&&!o.c.closedG){ double t=m.f[0].theta,e=1e-12*s.the; for(double g:{trapG(s,t-e,s.the),trapG(s,t+e,s.the)}) if(!(std::fabs(g-G.a)<=1e-7*G.a+1e-9)) m.amb=true,m.why="drive depends on the last digits of the moisture"; } }
    for(double g:Gs){ StepRef r=m; if(b&&!r.amb) refBirth(o.c,r,o.s.ff[1],o.fr,o.P,g);
      if(r.amb){ amb=true; best.r.why=r.why; continue; }
      double w=0; std::string df=profDiff(o.c,r.f,o.s.f,stepTol(o.c),stepTol(o.c),w); double ea=std::fabs(r.A-100*o.s.A),ed=std::fabs(r.D-100*o.s.D); bool ok=df.empty()&&ea<=2e-7&&ed<=1e-6;
      double score=(df.empty()?w:1e3)+ea+ed; if(ok) score-=1e6; if(!best.usable||score<best.worst){ best.usable=true; best.worst=score; best.r=r; best.diff=df; } } }
  if(amb) best.usable=false; return best;
}
inline std::string events(const StepJudge&j){ return " [births "+std::to_string(j.born)+" merges "+std::to_string(j.r.merges)+" crossings "+std::to_string(j.r.crossings)+" exits "+std::to_string(j.r.exits)+" dried "+std::to_string(j.r.dried)+" deepened "+std::to_string(j.r.deepened)+j.r.log+"]"; }
inline void stepEvents(Ctx&x,const StepJudge&j){ x.cnt("steps_checked"); if(j.r.merges) x.cnt("steps_with_merge"); if(j.r.crossings) x.cnt("steps_with_crossing"); if(j.r.exits) x.cnt("steps_with_exit"); if(j.r.dried) x.cnt("steps_with_dry_over_wet"); if(j.r.deepened) x.cnt("steps_deepened"); if(j.born) x.cnt("steps_with_birth"); }
// movement, redistribution, merging and crossing of existing fronts
inline void mMoveRef(Ctx&x,const Obs&o){
  StepJudge j=judgeStep(o); if(!j.usable){ if(oneStep(o)) x.cnt("undecided_steps"); return; }
  stepEvents(x,j); if(!j.diff.empty()) x.viol("profile",j.diff+events(j)+at(o)); else x.met("profile_rel",j.worst+1e6);
}
// birth of a surface front
inline void mBirthRef(Ctx&x,const Obs&o){
  if(!oneStep(o)||births_amb(o)) return; bool b=births(o); if(!b){ x.cnt("no_birth_updates"); if(o.s.f.size()>o.a.f.size()) x.viol("spurious","a front appeared although no dry-to-wet change at an unsaturated, unponded surface"+at(o)); return; }
  StepJudge j=judgeStep(o); if(!j.usable){ x.cnt("undecided_births"); return; } x.cnt("births"); x.cnt(j.r.I<o.P-1e-12?"births_saturated":"births_unsaturated"); if(j.r.newDepth>=o.c.cum(1)) x.cnt("births_filling_layer"); if(j.r.merges||j.r.crossings) x.cnt("births_with_merge_or_crossing");
  if(!j.diff.empty()){ x.viol("birth",j.diff+" (new front expected at "+g17(j.r.newDepth)+" cm)"+events(j)+at(o)); return; }
  if(!(std::fabs(j.r.I-100*o.s.I)<=(o.c.kind[1]=='2'?1e-5:1e-6))) x.viol("birth_infiltration","infiltration "+g17(100*o.s.I)+" cm, expected "+g17(j.r.I)+at(o));
}
// water leaving through the bottom
inline void mPercRef(Ctx&x,const Obs&o){
  double D=100*o.s.D; if(!(D>=-(o.c.kind[1]=='2'?std::max(1e-5,1.5e-4*(o.s.steps-o.a.steps)):1e-7))) x.viol("negative","negative percolation "+g17(D)+at(o)); if(!oneStep(o)) return;
  StepJudge j=judgeStep(o); if(!j.usable){ x.cnt("undecided_steps"); return; } x.cnt("steps_checked"); if(j.r.D>0) x.cnt("percolations"); if(j.r.exits) x.cnt("exits"); x.cnt("front_exits_layer"+std::to_string(o.c.nl()),j.r.exits);
  if(!(std::fabs(j.r.D-D)<=1e-6)) x.viol("percolation","percolation "+g17(D)+" cm, expected "+g17(j.r.D)+events(j)+at(o));
  // the front that left is gone and the deepest one has its moisture
  if(j.r.exits){ double ta=j.r.f.back().theta,tb=o.s.f.back().theta; if(o.s.f.size()!=j.r.f.size()) x.viol("left","after a front left the column has "+std::to_string(o.s.f.size())+" fronts, expected "+std::to_string(j.r.f.size())+events(j)+at(o)); else if(!(std::fabs(ta-tb)<=(o.c.kind[1]=='2'?1e-3:1e-5))) x.viol("deepest","after a front left the deepest front has moisture "+g17(tb)+", expected "+g17(ta)+events(j)+at(o)); }
}
// --- evapotranspiration
inline void mET(Ctx&x,const Obs&o){
  double A=100*o.s.A, cl=o.c.kind[1]=='2'?1e-3:1e-5; if(!(A>=-cl)) x.viol("negative","negative ET "+g17(A)+at(o));
  if(!(A<=o.E+cl)) x.viol("exceeds","ET "+g17(A)+" exceeds potential "+g17(o.E)+" cm"+at(o));
  if(o.E==0&&std::fabs(A)>cl) x.viol("no_demand","ET "+g17(A)+" without potential ET"+at(o));
  if(oneStep(o)&&o.E>0){ StepJudge j=judgeStep(o); if(!j.usable){ x.cnt("undecided_steps"); return; } x.cnt("law_checks"); if(j.r.dried) x.cnt("with_dry_front_adjustment"); double d=etDemand(o.c,o.a.f,o.E); x.cnt(d<0.5*o.E?"stressed_checks":"unstressed_checks");
    double e=A-j.r.A; x.met("law_err",std::fabs(e)); if(!(std::fabs(e)<=(o.c.kind[1]=='2'?1e-4:5e-7)+1e-6*d)) x.viol("law","ET "+g17(A)+" cm, expected "+g17(j.r.A)+" cm (potential "+g17(o.E)+", head "+g17(o.a.f[0].psi)+")"+events(j)+at(o)); }
}
// --- BMI outputs mirror the state
inline void mOut(Ctx&x,const Obs&o){
  double S=storage(o.c,o.s.f); if(!(std::fabs(100*o.s.S-S)<=1e-9)) x.viol("storage","soil_storage "+g17(o.s.S)+" m, profile holds "+g17(S)+" cm"+at(o));
  if(o.s.nwf!=(int)o.s.f.size()) x.viol("count","soil_num_wetting_fronts="+std::to_string(o.s.nwf)+" but the profile has "+std::to_string(o.s.f.size())+at(o));
  else for(size_t j=0;j<o.s.f.size();j++){ x.cnt("profile_entries"); if(!(std::fabs(o.s.th[j]-o.s.f[j].theta)<=1e-14)) x.viol("theta","published moisture "+g17(o.s.th[j])+" vs "+g17(o.s.f[j].theta)+at(o)); if(!(std::fabs(o.s.dz[j]*100-o.s.f[j].depth)<=1e-9)) x.viol("depth","published depth "+g17(o.s.dz[j])+" m vs "+g17(o.s.f[j].depth)+" cm"+at(o)); }
  if(!(std::fabs(100*o.s.P-o.P)<=1e-9+1e-12*o.P)) x.viol("precip","published precipitation "+g17(o.s.P)+" m, forcing "+g17(o.P)+" cm"+at(o));
  if(!(std::fabs(100*o.s.E-o.E)<=1e-9)) x.viol("pet","published PET "+g17(o.s.E)+" m, forcing "+g17(o.E)+" cm"+at(o));
  if(!(std::fabs(o.s.Q-o.s.G)<=1e-12)) x.viol("discharge","total discharge "+g17(o.s.Q)+" differs from routed runoff "+g17(o.s.G)+at(o));
  if(!(std::fabs(o.s.MB-0.01*o.s.lmb)<=1e-18+1e-9*std::fabs(o.s.lmb))) x.viol("balance","published mass balance "+g17(o.s.MB)+" m, state holds "+g17(o.s.lmb)+" cm"+at(o));
  if(o.s.W!=0) x.viol("gw","groundwater flux "+g17(o.s.W)+" although there is no groundwater reservoir"+at(o));
}
inline void mTime(Ctx&x,const Obs&o){
  double t=(o.i+1)*o.c.fr_s; if(!(std::fabs(o.s.t-t)<=1e-3)) x.viol("time","time is "+g17(o.s.t)+" s, expected "+g17(t)+at(o));
  if(!(std::fabs(100*o.s.P-o.P)<=1e-9+1e-12*o.P)) x.viol("precip","precipitation volume "+g17(100*o.s.P)+" cm, expected "+g17(o.P)+at(o));
  if(!(std::fabs(100*o.s.E-o.E)<=1e-9)) x.viol("pet","PET volume "+g17(100*o.s.E)+" cm, expected "+g17(o.E)+at(o));
}
} // namespace mon
