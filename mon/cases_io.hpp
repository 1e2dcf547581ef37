// Cases about reports, routing, configuration files, the standalone driver.
#pragma once
#include "scenarios.hpp"
#include "broken.hpp"
namespace mon {
// value printed by Finalize for a label
inline bool printed(const std::string&out,const char*label,double&v){ size_t p=out.rfind(label); if(p==std::string::npos) return false; p=out.find('=',p); if(p==std::string::npos) return false; v=strtod(out.c_str()+p+1,nullptr); return true; }
struct Totals { double P=0,E=0,A=0,R=0,G=0,Q=0,I=0,D=0; void add(const Snap&s){ P+=s.P; E+=s.E; A+=s.A; R+=s.R; G+=s.G; Q+=s.Q; I+=s.I; D+=s.D; } };
inline void judgeSummary(Ctx&x,const std::string&out,const Totals&t,double S0,double S1,double pond,double dcal,const std::string&ctx){
  struct L{const char*l;double want;}; double tol=2e-8;
  std::vector<L> ls={{"Initial water in soil",S0},{"Total precipitation",100*t.P},{"Total infiltration",100*t.I},{"Final water in soil",S1},{"Surface ponded water",pond},{"Surface runoff ",100*t.R},{"GIUH runoff",100*t.G},{"GIUH water (in array)",100*(t.R-t.G)},{"Total percolation",100*t.D},{"Total AET",100*t.A},{"Total PET",100*t.E},{"Total discharge (Q)",100*t.Q},{"Vol change (calibration)",dcal}};
  for(auto&l:ls){ double v; x.cnt("summary_lines"); if(!printed(out,l.l,v)){ x.viol("missing",std::string("summary line '")+l.l+"' missing; "+ctx); continue; } if(!(std::fabs(v-l.want)<=tol*(1+std::fabs(l.want)))) x.viol("summary",std::string("summary reports '")+l.l+"' = "+g17(v)+" cm, outputs add up to "+g17(l.want)+"; "+ctx); }
  double g; if(!printed(out,"Global balance",g)) x.viol("missing","no global balance in the summary; "+ctx);
  else { double resid=S0+dcal+100*(t.P-t.R-t.A-t.D)-pond-S1; if(!(std::fabs(g-resid)<=1e-7)) x.viol("global","global balance reported as "+g17(g)+" cm, outputs give "+g17(resid)+"; "+ctx); }
}
inline void c02(Ctx&x){
  int n= x.idx%20==19? (x.thorough?4000:500) : (x.idx%13==0?x.r.i(0,3):x.r.i(20,160)); Scn q= x.idx%20==19?longScn(x,n):anyScn(x,n); if(n==0){ q.f=Forc(); }
  if(x.idx%4==1&&q.f.size()>0){ q.c.end_h=(q.f.size()-x.r.u(0.02,0.98))*q.c.fr_s/3600; q.w.end_h=q.c.end_h; x.cnt("ending_inside_an_interval"); } // the last Update stops early
  GenOpt dummy; Totals t; Run R; Snap last; double S0=0,dcal=0; bool first=true; (void)dummy; double tolStep=(q.c.kind[1]=='2'?1e-3:3e-6); double cum=0;
  auto m=[&](Ctx&,const Obs&o){ if(first){ first=false; } t.add(o.s); (void)tolStep; cum=std::max(cum,std::fabs(S0+dcal+100*(t.P-t.R-t.A-t.D)-o.s.pond-storage(o.c,o.s.f)));
    double lim=1e-6+(o.i+1)*(o.c.kind[1]=='2'?1e-5:2e-8); if(!(cum<=lim)) x.viol("cumulative","after "+std::to_string(o.i+1)+" Updates the water balance is off by "+g17(cum)+" cm; "+brief(o.c)); };
  // storage as configured (before calibration) and after it
  for(int l=1;l<=q.c.nl();l++){ const Cfg&w=q.cal?q.w:q.c; S0+=w.thick[l-1]*vgTheta(w.soil(l),w.init_psi); dcal+=q.c.thick[l-1]*vgTheta(q.c.soil(l),q.c.init_psi); } dcal-=S0; if(!q.cal) dcal=0; 
  bool applied=q.cal&&n>0; if(!applied) dcal=0;
  drive(x,q,{m},&last,&R); double pond=last.pond; double S1=n>0?storage(q.c,last.f):S0; R.fin(); fflush(stdout);
  x.met("cumulative_residual_cm",cum); x.met("cumulative_residual_per_update",cum/std::max(1,n)); x.cnt("summaries"); if(t.R>0) x.cnt("with_runoff"); if(t.D>0) x.cnt("with_percolation"); if(pond>0) x.cnt("ending_ponded"); if(applied) x.cnt("with_calibration"); if(t.R-t.G>1e-9) x.cnt("with_water_in_routing");
  judgeSummary(x,slurp(x.outfile()),t,S0,S1,pond,dcal,brief(q.c));
}
inline void c03(Ctx&x){
  GenOpt o; o.single=x.r.p(0.2); o.sftP=0.05; Cfg c=rndCfg(x.r,o); if(x.r.p(0.5)) c.fr_s=x.r.pick(std::vector<double>{300,600,900,1200,1800,2400,3600,4500,5400,7200,10800,14400}); if(x.r.p(0.1)) for(auto&v:c.giuh) v*=x.r.u(0.5,1.2);
  if(c.ts_s>c.fr_s&&x.r.p(0.7)) c.ts_s=c.fr_s; if(x.r.p(0.5)) c.pond_max=0;
  int n=span(x,x.r.i(40,120)); Scn q; q.c=q.w=c; q.f=rndForc(x.r,c,n,x.r.pick(std::vector<int>{0,2,5,6,7,8})); if(c.sft) temps(x.r,c,q.f,5); if(x.r.p(0.5)) for(int i=n*2/3;i<n;i++) q.f.P[i]=0;
  std::vector<double> h=refGiuh(c.giuh,c.fr_s/3600), run; double sumh=0; for(double v:h) sumh+=v; double sR=0,sG=0; x.cnt("ordinates_"+std::string(h.size()==c.giuh.size()?"hourly":h.size()>c.giuh.size()?"subhourly":"superhourly"));
  drive(x,q,{[&](Ctx&x,const Obs&o){ run.push_back(o.s.R); double e=0; for(size_t j=0;j<h.size()&&j<run.size();j++) e+=h[j]*run[run.size()-1-j]; sR+=o.s.R; sG+=o.s.G; x.cnt("routing_checks"); if(e>0) x.cnt("routing_checks_wet"); if(o.s.R==0&&e>0) x.cnt("delayed_only");
    x.met("routing_err_m",std::fabs(e-o.s.G)); if(!(std::fabs(e-o.s.G)<=1e-10+1e-9*e)) x.viol("routing","routed runoff "+g17(o.s.G)+" m, unit hydrograph gives "+g17(e)+" m, ordinates "+vec(c.giuh)+at(o));
    if(!(std::fabs(o.s.Q-o.s.G)<=1e-12)) x.viol("discharge","total discharge "+g17(o.s.Q)+" m differs from routed runoff "+g17(o.s.G)+" m"+at(o));
    if(!(sG<=sR*std::max(1.0,sumh)+1e-9)) x.viol("created","more water routed ("+g17(sG)+" m) than ran off ("+g17(sR)+" m)"+at(o)); }});
}
inline void c14(Ctx&x){
  Scn q=anyScn(x,100); // right after Initialize
  { std::string p=write_cfg(q.c,x.dir,"i"); Run r; r.init(q.c,p); Snap s=observe(r.b); x.cnt("initial_checks"); for(double v:{s.P,s.E,s.A,s.R,s.G,s.Q,s.I,s.D,s.W,s.MB}) if(v!=0) x.viol("initial","a flux output is "+g17(v)+" before the first Update; "+brief(q.c));
    if(!(std::fabs(100*s.S-storage(q.c,s.f))<=1e-9)) x.viol("initial","soil_storage before the first Update is "+g17(s.S)+" m, the profile holds "+g17(storage(q.c,s.f))+" cm; "+brief(q.c));
    if(s.nwf!=q.c.nl()) x.viol("initial","front count "+std::to_string(s.nwf)+"; "+brief(q.c)); else for(int j=0;j<s.nwf;j++) if(!(std::fabs(s.th[j]-s.f[j].theta)<=1e-14&&std::fabs(100*s.dz[j]-s.f[j].depth)<=1e-9)) x.viol("initial","published initial profile differs from the state; "+brief(q.c));
    r.fin(); }
  double sw=0; drive(x,q,{mOut,[&](Ctx&x,const Obs&o){ // published fluxes account for the change of the published storage and for the ponded water
    double e=100*(o.a.S-o.s.S)+o.a.pond+o.P-o.s.pond-100*(o.s.R+o.s.A+o.s.D); if(!(std::fabs(e)<=TOL_MASS(o.c))) x.viol("flux_storage","published fluxes do not explain the published storage change ("+g17(e)+" cm)"+at(o));
    double e2=100*(o.s.S-o.a.S)-100*(o.s.I-o.s.A-o.s.D); if(!(std::fabs(e2)<=TOL_MASS(o.c))) x.viol("infiltration_storage","published infiltration - ET - percolation is not the storage change ("+g17(e2)+" cm)"+at(o));
    if(!(std::fabs(o.s.MB)<=1e-6)) x.viol("mass_balance","published mass balance error "+g17(o.s.MB)+" m"+at(o)); sw+=o.s.S; }});
}

// ---------------------------------------------------------------- configuration files
inline std::string numFmt(Rng&r,double v){ char b[64]; if(r.p(0.3)){ snprintf(b,64,"%.17e",v); return b; } return g17(v); }
inline std::string timeVal(Rng&r,double sec,bool day){ switch(r.i(0,day?7:5)){ case 0: return g17(sec)+"[sec]"; case 1: return g17(sec)+"[s]"; case 2: return g17(sec); case 3: return g17(sec/60)+"[min]"; case 4: return g17(sec/60)+"[minute]"; case 5: return g17(sec/3600)+(r.p(0.5)?"[hr]":"[h]"); case 6: return g17(sec/86400)+"[day]"; default: return g17(sec/86400)+"[d]"; } }
inline void c21(Ctx&x){
  Scn q=anyScn(x,20,0.2); if(x.r.p(0.3)){ Scn n; n=q; } q.cal=false; Cfg&c=q.c; if(q.w.kind!=c.kind||1){} Rng&r=x.r;
  if(c.fr_s>=1800&&r.p(0.12)){ c.ts_s=r.pick(std::vector<double>{112.5,281.25,337.5,562.5,1012.5,1799.5}); x.cnt("fractional_second_steps"); } // steps that are not whole seconds
  if(r.p(0.1)){ c.pond_max=r.u(20,800); x.cnt("deep_pond_limits"); }
  q.w=c;
  // soil table: extra rows, quoted names with blanks or plain words, blank lines, tabs, comment after the values
  Cfg t=c; std::vector<int> perm; int rows=c.soils.size(); for(int i=0;i<rows;i++) perm.push_back(i); for(int i=rows-1;i>0;i--) std::swap(perm[i],perm[r.next()%(i+1)]);
  std::vector<Soil> so(rows); for(int i=0;i<rows;i++) so[perm[i]]=c.soils[i]; for(auto&ty:t.type) ty=perm[ty-1]+1; t.soils=so;
  bool crlf=r.p(0.1); std::string nl=crlf?"\r\n":"\n"; std::string tab="header "+std::string(r.i(0,80),'x')+nl;
  for(auto&s:t.soils){ std::string nm=r.p(0.5)?"\"Soil name "+std::to_string(r.i(1,99))+"\"":r.p(0.5)?"\"W"+std::to_string(r.i(1,99))+"\"":"word"+std::to_string(r.i(1,99)); std::string sep=r.p(0.2)?"\t":r.p(0.3)?"   ":" "; tab+=nm; for(double v:{s.thr,s.the,s.alpha,s.n,s.Ks}) tab+=sep+numFmt(r,v); tab+=nl; if(r.p(0.1)) tab+=nl; }
  std::string sp=x.dir+"/soil table.dat"; if(r.p(0.6)) sp=x.dir+"/soil.dat"; spit(sp,tab);
  std::vector<std::string> L; auto add=[&](const std::string&s){ L.push_back(s); };
  add("soil_params_file="+sp); { std::string s="layer_thickness="; for(int i=0;i<c.nl();i++) s+=(i?",":"")+numFmt(r,c.thick[i]); add(s+(r.p(0.7)?"[cm]":"")); }
  add("initial_psi="+numFmt(r,c.init_psi)+(r.p(0.7)?"[cm]":"")); add("timestep="+timeVal(r,c.ts_s,false)); add("endtime="+timeVal(r,c.end_h*3600,true)); add("forcing_resolution="+timeVal(r,c.fr_s,false));
  if(c.pond_max>0||r.p(0.5)) add("ponded_depth_max="+numFmt(r,c.pond_max==0&&r.p(0.2)?-r.u(0,3):c.pond_max)+(r.p(0.7)?"[cm]":""));
  if(c.closedG||r.p(0.5)) add(std::string("use_closed_form_G=")+(c.closedG?"true":"false"));
  { std::string s="layer_soil_type="; for(size_t i=0;i<t.type.size();i++) s+=(i?",":"")+std::to_string(t.type[i]); add(s); }
  int mx=0; for(int ty:t.type) mx=std::max(mx,ty); if(r.p(0.5)) add("max_valid_soil_types="+std::to_string(r.p(0.5)?mx:r.i(mx,40)));
  add("wilting_point_psi="+numFmt(r,c.wp)+"[cm]"); add("field_capacity_psi="+numFmt(r,c.fc)+(r.p(0.5)?"[cm]":"")); { std::string s="giuh_ordinates="; for(size_t i=0;i<c.giuh.size();i++) s+=(i?",":"")+g17(c.giuh[i]); add(s); }
  if(c.adaptive||r.p(0.5)) add(std::string("adaptive_timestep=")+(r.p(0.5)?(c.adaptive?"true":"false"):(c.adaptive?"1":"0")));
  if(c.sft){ add("sft_coupled=true"); add("soil_z="+vec(c.soil_z)+"[cm]"); } else if(r.p(0.3)){ add("sft_coupled=false"); if(r.p(0.5)) add("soil_z=10,20,30[cm]"); }
  if(r.p(0.3)) add("calib_params=false");
  if(r.p(0.5)) add("forcing_file=/nowhere/forcing.csv"); if(r.p(0.3)) add("some_other_option=17[furlong]"); if(r.p(0.3)) add("# a comment line"); if(r.p(0.3)) add("");
  add("verbosity=none");
  for(int i=(int)L.size()-1;i>0;i--) std::swap(L[i],L[r.next()%(i+1)]);
  std::string txt; bool trail=r.p(0.15); for(size_t i=0;i<L.size();i++){ txt+=L[i]; if(trail&&L[i].find('[')!=std::string::npos) txt+="  "; if(crlf) txt+="\r"; if(i+1<L.size()||r.p(0.8)) txt+="\n"; }
  spit(x.dir+"/v.txt",txt); if(crlf) x.cnt("crlf_files"); if(trail) x.cnt("trailing_blank_files"); x.cnt("config_files"); sampleOf(x,q); x.sig(hstr(txt));
  Run v; v.init(c,x.dir+"/v.txt"); Snap s=observe(v.b); std::string ctx="configuration: "+txt; for(char&ch:ctx) if(ch=='\n') ch=';';
  auto bad=[&](const std::string&k,const std::string&m){ x.viol(k,m+"; "+ctx); };
  auto near=[&](double a,double b){ return std::fabs(a-b)<=1e-12*(1+std::fabs(b)); };
  if((int)s.f.size()!=c.nl()) bad("initial_fronts","initial profile has "+std::to_string(s.f.size())+" fronts for "+std::to_string(c.nl())+" layers");
  else for(int l=1;l<=c.nl();l++){ x.cnt("initial_fronts"); const Front&w=s.f[l-1]; if(w.layer!=l||!w.bot||!near(w.depth,c.cum(l))) bad("initial_depth","initial front of layer "+std::to_string(l)+" at "+g17(w.depth)+" cm instead of "+g17(c.cum(l))); if(!near(w.psi,c.init_psi)) bad("initial_psi","initial head "+g17(w.psi)); double th=vgTheta(c.soil(l),c.init_psi); if(!(std::fabs(w.theta-th)<=1e-10)) bad("initial_theta","initial moisture of layer "+std::to_string(l)+" is "+g17(w.theta)+", expected "+g17(th)); }
  if(!(std::fabs(100*s.S-storage(c,s.f))<=1e-9)) bad("initial_storage","initial storage "+g17(s.S));
  std::vector<double> a(c.nl()+1); struct N{const char*n; std::function<double(const Soil&)> g;}; std::vector<N> P={{"smcmax",[](const Soil&s){return s.the;}},{"smcmin",[](const Soil&s){return s.thr;}},{"van_genuchten_n",[](const Soil&s){return s.n;}},{"van_genuchten_alpha",[](const Soil&s){return s.alpha;}},{"hydraulic_conductivity",[](const Soil&s){return s.Ks;}}};
  for(auto&p:P){ v.b.GetValue(p.n,a.data()); for(int l=1;l<=c.nl();l++){ x.cnt("parameter_checks"); if(!near(a[l-1],p.g(c.soil(l)))) bad("parameter",std::string(p.n)+" of layer "+std::to_string(l)+" is "+g17(a[l-1])+", configured "+g17(p.g(c.soil(l)))); } }
  v.b.GetValue("soil_depth_layers",a.data()); for(int l=1;l<=c.nl();l++) if(!near(100*a[l-1],c.cum(l))) bad("layer_depth","soil_depth_layers["+std::to_string(l)+"] = "+g17(a[l-1])+" m, configured "+g17(c.cum(l))+" cm");
  if(!near(get1(v.b,"ponded_depth_max"),c.pond_max)) bad("ponded_depth_max",g17(get1(v.b,"ponded_depth_max"))); if(!near(get1(v.b,"field_capacity"),c.fc)) bad("field_capacity",g17(get1(v.b,"field_capacity")));
  if(!near(v.b.GetTimeStep(),c.fr_s)) bad("time_step","time step "+g17(v.b.GetTimeStep())+" s, configured "+g17(c.fr_s)); if(!near(v.b.GetEndTime(),c.end_h*3600)) bad("end_time","end time "+g17(v.b.GetEndTime())+" s"); if(v.b.GetStartTime()!=0||v.b.GetCurrentTime()!=0) bad("start_time","clock does not start at 0");
  // the same column written canonically behaves the same
  std::vector<Snap> ref=traj(x,q,"canon"); for(size_t i=0;i<q.f.size();i++){ if(c.sft) v.temp(q.f.T[i]); v.step(q.f.P[i],q.f.E[i]); Snap u=observe(v.b); std::string d=stateDiff(u,ref[i+1],1e-6); if(d.empty()) d=outDiff(u,ref[i+1],1e-7); x.cnt("behaviour_checks"); if(!d.empty()){ if(sensitive(x,q,i,1e-6,1e-7)) break; bad("behaviour","differs from the same column in canonical notation at update "+std::to_string(i+1)+": "+d); break; } }
  v.fin();
}
// broken configurations must be refused: error or abort, never a run
inline void c22(Ctx&x){
  Broken B=breakInput(x,x.idx%16);
  Outcome o=isolated(x,B.run); x.cnt("broken_inputs"); x.cnt(o.threw?"refused_by_exception":o.rejected()?"refused_by_termination":"not_refused");
  if(!o.rejected()) x.viol("accepted",B.what+": expected a refusal, got "+describe(o)+"; "+brief(B.c));
  // control: the same configuration unbroken is accepted
  Cfg g=B.q.c; std::string ok=write_cfg(g,x.dir,"ok"); Outcome u=isolated(x,[&](){ Run v; v.init(g,ok); if(g.sft) v.temp(B.q.f.T[0]); v.step(1,0.1); v.fin(); }); x.cnt("controls"); if(!u.done) x.viol("refused","a valid configuration was refused: "+describe(u)+"; "+brief(g));
}
// ---------------------------------------------------------------- standalone driver
inline void c26(Ctx&x){
  const char*drv=getenv("MON_DRIVER"); if(!drv) throw std::runtime_error("harness: no driver");
  GenOpt o; o.single=x.r.p(0.2); if(x.r.p(0.1)) o.soilMode=2; Scn q=scn(x,o,span(x,40)==40?x.r.i(1,80):span(x,40),0); Cfg&c=q.c; int n=q.f.size(); int steps=x.r.p(0.6)?n:x.r.i(1,n); double endfrac=x.r.p(0.3)?x.r.u(0.05,0.9):0; c.end_h=(steps+endfrac)*c.fr_s/3600; if(endfrac==0) c.end_h=steps*c.fr_s/3600; bool crlf=x.r.p(0.1),fcrlf=x.r.p(0.1),tooShort=x.r.p(0.04); int broken=!tooShort&&x.r.p(0.06)?x.r.i(1,6):0; bool gaps=!broken&&!tooShort&&x.r.p(0.1); if(gaps) x.cnt("forcings_with_blank_lines"); int unit=x.r.i(0,3); bool finalNl=!x.r.p(0.2); if(x.r.p(0.15)) c.verbosity=x.r.p(0.5)?"low":"high"; if(c.verbosity!="none") x.cnt("verbose_runs");
  std::string sp=x.dir+"/s.dat"; spit(sp,soil_table(c)); if(tooShort){ steps=n+(x.r.p(0.6)?1:x.r.i(1,5)); endfrac=0; c.end_h=steps*c.fr_s/3600; }
  auto L=config_lines(c,sp); static const char*UN[]={"[s]","[min]","[hr]","[d]"}; static const double US[]={1,60,3600,86400}; for(auto&l:L) if(!l.compare(0,8,"endtime=")) l="endtime="+g17((steps+endfrac)*c.fr_s/US[unit])+UN[unit];
  if(broken!=1) L.insert(L.begin()+x.r.i(0,(int)L.size()),"forcing_file="+x.dir+(broken==2?"/absent.csv":"/f.csv")); { std::string t=join(L); if(crlf){ std::string u; for(char ch:t){ if(ch=='\n') u+='\r'; u+=ch; } t=u; x.cnt("crlf_files"); } spit(x.dir+"/d.txt",t); }
  std::string f="Time,P(mm/h),PET(mm/h)\n"; std::vector<std::string> tm; int fmt=x.r.i(0,5); for(int i=0;i<n;i++){ char b[200]; static const char*F[]={"2016-%02d-%02d %02d:%02d:00","2016-%02d-%02d %02d:%02d:00","2016-%02d-%02dT%02d:%02d:00.000Z","2016-%02d-%02d %02d:%02d:00+00:00","%02d/%02d/2016 %02d:%02d","2016%02d%02d%02d%02d"}; snprintf(b,200,F[fmt],1+i/700%12,1+i/24%28,i%24,i*7%60); if(x.r.p(0.02)) snprintf(b,200,"%d",i); tm.push_back(b); bool hit=broken>=3&&i==steps/2; if(gaps&&x.r.p(0.1)) f+=x.r.p(0.5)?"\n":" \n"; if(hit&&broken>=5){ f+=std::string(b)+(broken==5?","+g17(q.f.P[i]):std::string())+(x.r.p(0.3)?",":"")+"\n"; continue; } bool inP=x.r.p(0.5); auto cell=[&](double v,bool me){ return !(hit&&me)?g17(v):broken==3?std::string("abc"):std::string("-0.5"); }; f+=std::string(b)+","+cell(q.f.P[i],inP)+","+cell(q.f.E[i],!inP)+(x.r.p(0.1)?",extra":"")+"\n"; } if(broken>=5) for(int i=0;i<3;i++) f+="2017-01-01 00:00:00,0,0.1\n"; if(!finalNl) f.pop_back(); if(fcrlf){ std::string u; for(char ch:f){ if(ch=='\n') u+='\r'; u+=ch; } f=u; } spit(x.dir+"/f.csv",f); sampleOf(x,q);
  std::string wd=x.dir+"/w"; mkdir(wd.c_str(),0777); std::string cmd="cd '"+wd+"' && timeout 120 '"+drv+"' '"+x.dir+"/d.txt' > out.txt 2> err.txt"; int rc=system(cmd.c_str()); x.cnt("driver_runs");
  std::string ctx=brief(c); if(broken){ static const char*BN[]={"","no forcing_file","an absent forcing_file","a forcing cell that is no number","a negative forcing rate","a forcing row without PET","a forcing row without values"}; x.cnt("broken_forcings"); if(rc==0) x.viol("broken",std::string("the driver accepted ")+BN[broken]+"; "+ctx); return; }
  if(tooShort){ x.cnt("too_short_forcings"); if(rc==0) x.viol("too_short","the driver accepted "+std::to_string(n)+" rows of forcing for "+std::to_string(steps)+" intervals"+(finalNl?"":" (no final newline)")+"; "+ctx); return; }
  if(rc!=0){ x.viol("driver_failed","driver ended with status "+std::to_string(rc)+"; "+ctx); return; }
  Cfg cb=c; cb.verbosity="none"; cb.end_h=1e6; std::string p=write_cfg(c,x.dir,"ref"); Run r; Cfg cq=c; cq.verbosity="none"; p=write_cfg(cq,x.dir,"ref"); r.init(cq,p); Totals t; double S0=storage(c,observe(r.b).f);
  std::string dv=slurp(wd+"/data_variables.csv"), dl=slurp(wd+"/data_layers.csv"); std::istringstream iv(dv),il(dl); std::string l;
  if(!std::getline(iv,l)||l!="Time,precipitation,potential_evapotranspiration,actual_evapotranspiration,surface_runoff,giuh_runoff,soil_storage,total_discharge,infiltration,percolation,groundwater_to_stream_recharge,mass_balance") x.viol("header","unexpected header of data_variables.csv: "+l+"; "+ctx);
  Snap s; s.f=observe(r.b).f; int rows=0;
  for(int i=0;i<steps;i++){ r.step(q.f.P[i],q.f.E[i]); s=observe(r.b); t.add(s); x.cnt("rows"); rows++; if(s.R>0||s.D>0) x.cnt("eventful_rows"); x.met("fronts",s.f.size()); x.sig(mixh(s.f.size(),mixh(c.nl(),(s.R>0)|(s.D>0)<<1|(s.pond>0)<<2)));
    double v[11]={s.P,s.E,s.A,s.R,s.G,s.S,s.Q,s.I,s.D,s.W,s.MB}; std::string e=tm[i]; for(int j=0;j<11;j++){ char b[64]; snprintf(b,64,",%6.15f",v[j]); e+=b; }
    if(!std::getline(iv,l)){ x.viol("rows","data_variables.csv ends after "+std::to_string(i)+" of "+std::to_string(steps)+" rows; "+ctx); break; }
    { std::vector<std::string> a; std::string cell; std::istringstream ls(l); while(std::getline(ls,cell,',')) a.push_back(cell); bool ok=a.size()==12&&a[0]==tm[i]; if(ok) for(int j=0;j<11;j++){ char*end; double u=strtod(a[j+1].c_str(),&end); if(*end||!(std::fabs(u-v[j])<=2e-15)) ok=false; } if(!ok) x.viol("variables","row "+std::to_string(i+1)+" of data_variables.csv is '"+l+"', the model run gives '"+e+"'; "+ctx); }
    std::string h; if(!std::getline(il,h)||!std::getline(il,l)){ x.viol("rows","data_layers.csv ends early; "+ctx); break; }
    { char b[200]; snprintf(b,200,"# Timestep = %d, %s",i,tm[i].c_str()); if(h.compare(0,strlen(b),b)) x.viol("layers","heading '"+h+"' instead of '"+b+"'; "+ctx);
      std::vector<Front> g; const char*pc=l.c_str(); bool ok=*pc=='['; pc++; while(ok&&*pc=='('){ Front w{}; int m=0; double d,th,ps; if(sscanf(pc,"(%lf,%lf,%d,%d,%lf)%n",&d,&th,&w.layer,&w.num,&ps,&m)<5||m==0){ ok=false; break; } w.depth=d; w.theta=th; w.psi=ps; g.push_back(w); pc+=m; if(*pc=='|'&&pc[1]=='(') pc++; else if(*pc!=']') ok=false; } ok=ok&&*pc==']'&&g.size()==s.f.size(); if(ok) for(size_t j=0;j<g.size();j++) if(g[j].layer!=s.f[j].layer||g[j].num!=s.f[j].num||!(std::fabs(g[j].depth-10*s.f[j].depth)<=2e-6*(1+1e-9*g[j].depth))||!(std::fabs(g[j].theta-s.f[j].theta)<=2e-6)||!(std::fabs(g[j].psi-10*s.f[j].psi)<=2e-6+1e-9*g[j].psi)) ok=false;
      if(!ok){ std::string e2; for(auto&w:s.f){ char z[160]; snprintf(z,160,"(%lf,%lf,%d,%d,%lf)",w.depth*10,w.theta,w.layer,w.num,w.psi*10); e2+=z; } x.viol("layers","row "+std::to_string(i+1)+" of data_layers.csv is '"+l+"', the model run gives '"+e2+"'; "+ctx); } } }
  if(std::getline(iv,l)&&!l.empty()) x.viol("rows","data_variables.csv has more rows than the "+std::to_string(steps)+" intervals of the simulated period; "+ctx);
  double S1=storage(c,s.f); judgeSummary(x,slurp(wd+"/out.txt"),t,S0,S1,s.pond,0,ctx); r.fin();
}
// ---------------------------------------------------------------- verbosity
inline void c27(Ctx&x){
  Scn q=anyScn(x,40); sampleOf(x,q); std::vector<Snap> ref=traj(x,q,"n"); 
  for(const char*v:{"low","high"}){ Scn y=q; y.c.verbosity=y.w.verbosity=v; std::vector<Snap> t=traj(x,y,v); x.cnt("verbose_runs"); if(t.size()!=ref.size()){ x.viol("length","different number of updates"); continue; } for(size_t i=0;i<t.size();i++){ std::string why; x.cnt("compared_states"); if(!bitSame(t[i],ref[i],why)){ x.viol("differs",std::string("verbosity ")+v+" changes the results at update "+std::to_string(i)+": "+why+"; "+brief(q.c)); break; } } }
  (void)!truncate(x.outfile().c_str(),0);
}
} // namespace mon
