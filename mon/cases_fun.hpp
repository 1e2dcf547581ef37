// Cases about the building blocks: the wetting-front list and the soil-hydraulic functions.
#pragma once
#include "scenarios.hpp"
namespace mon {
typedef std::vector<Front> Seq;
inline Seq readList(wetting_front*h){ Seq v; for(;h&&v.size()<500;h=h->next) v.push_back({h->depth_cm,h->theta,h->psi_cm,h->K_cm_per_h,h->dzdt_cm_per_h,h->layer_num,h->front_num,h->to_bottom}); return v; }
inline bool sameFront(const Front&a,const Front&b){ return a.depth==b.depth&&a.theta==b.theta&&a.psi==b.psi&&a.K==b.K&&a.dzdt==b.dzdt&&a.layer==b.layer&&a.num==b.num&&a.bot==b.bot; }
inline std::string seqDiff(const Seq&a,const Seq&b){ if(a.size()!=b.size()) return "length "+std::to_string(a.size())+", expected "+std::to_string(b.size()); for(size_t i=0;i<a.size();i++) if(!sameFront(a[i],b[i])) return "entry "+std::to_string(i+1)+" is (depth "+g17(a[i].depth)+", moisture "+g17(a[i].theta)+", layer "+std::to_string(a[i].layer)+", number "+std::to_string(a[i].num)+"), expected (depth "+g17(b[i].depth)+", moisture "+g17(b[i].theta)+", layer "+std::to_string(b[i].layer)+", number "+std::to_string(b[i].num)+")"; return ""; }
inline wetting_front* at_(wetting_front*h,int k){ while(h&&--k>0) h=h->next; return h; }
inline void c30(Ctx&x){
  Rng&r=x.r; int ops=r.i(5,x.thorough?400:120); wetting_front*h=nullptr; Seq m; std::string log; double del=r.pick(std::vector<double>{0.15,0.3,0.45});
  auto renum=[&]{ for(size_t i=0;i<m.size();i++) m[i].num=i+1; };
  auto fill=[&](wetting_front*w,Front&f){ w->psi_cm=f.psi=r.lu(1e-3,1e5); w->K_cm_per_h=f.K=r.lu(1e-9,30); w->dzdt_cm_per_h=f.dzdt=r.u(0,5); };
  for(int k=0;k<ops;k++){ double u=r.u(); int n=m.size(); std::string op; Front f{r.u(0.01,300),r.u(0.02,0.6),0,0,0,r.i(1,6),0,r.p(0.5)};
    if(n==0||(u>=del&&n<40&&u<del+0.2)){ op="insert first"; listInsertFirst(f.depth,f.theta,1,f.layer,f.bot,&h); m.insert(m.begin(),f); renum(); if(!h){ x.viol("insert_first","the list is empty after "+log+op); break; } if(h->dzdt_cm_per_h!=0) x.viol("speed","a new front has speed "+g17(h->dzdt_cm_per_h)+" after "+log+op); fill(h,m[0]); x.cnt("insert_first"); }
    else if(u<del){ int p=r.i(1,n); op="delete "+std::to_string(p); wetting_front*w=listDeleteFront(p,&h); m.erase(m.begin()+p-1); renum(); if(w!=at_(h,p)) x.viol("delete_next","deleting a front does not return the one that takes its place after "+log+op); x.cnt("deletions"); }
    else if(u<del+0.4&&n<40){ int p=r.p(0.4)?n+1:r.i(2,n+1); op="insert at "+std::to_string(p); wetting_front*w=listInsertFront(f.depth,f.theta,p,f.layer,f.bot,&h); m.insert(m.begin()+p-1,f); renum(); if(!w||w!=at_(h,p)){ x.viol("insert_result","inserting a front does not return it after "+log+op); break; } if(w->dzdt_cm_per_h!=0) x.viol("speed","a new front has speed "+g17(w->dzdt_cm_per_h)+" after "+log+op); fill(w,m[p-1]); x.cnt(p==n+1?"appends":"insert_middle"); }
    else if(u<del+0.5){ op="copy"; wetting_front*c=listCopy(h); std::string d=seqDiff(readList(c),m); if(!d.empty()) x.viol("copy","a copy differs: "+d+" after "+log+op); for(wetting_front*w=c,*v=h;w&&v;w=w->next,v=v->next) if(w==v){ x.viol("copy","a copy shares an entry with the original after "+log+op); break; }
      // searching in the copy finds the copy's entry; searching without one finds the list's own
      if(n){ int p=r.i(1,n); if(listFindFront(p,h,c)!=at_(c,p)||listFindFront(p,h,nullptr)!=at_(h,p)) x.viol("find","front "+std::to_string(p)+" is not found where it is after "+log+op); }
      if(c){ c->theta=-1; c->depth_cm=-1; d=seqDiff(readList(h),m); if(!d.empty()) x.viol("copy","changing a copy changes the original after "+log+op); } listDelete(c); x.cnt("copies"); }
    else { op="find"; int p=r.i(1,n); if(listFindFront(p,h,nullptr)!=at_(h,p)) x.viol("find","front "+std::to_string(p)+" is not found where it is after "+log+op); if(listFindFront(n+r.i(1,3),h,nullptr)) x.viol("find","a front that does not exist is found after "+log+op); x.cnt("finds"); }
    x.cnt("list_operations"); std::string d=seqDiff(readList(h),m); if(d.empty()&&listLength(h)!=(int)m.size()) d="reported length "+std::to_string(listLength(h)); if(!d.empty()){ x.viol("sequence","the front list differs from the sequence of operations: "+d+" after "+log+op); break; }
    x.sig(mixh(hstr(op.substr(0,8)),mixh(n,k%5))); log+=op+"; "; if(log.size()>600) log="..."+log.substr(log.size()-600); }
  x.sample(log); listDelete(h);
  // water held by a random profile
  Cfg c; int nl=r.i(1,6); for(int l=0;l<nl;l++) c.thick.push_back(r.lu(5,300)); std::vector<double> cum(nl+1,0); for(int l=1;l<=nl;l++) cum[l]=cum[l-1]+c.thick[l-1];
  h=nullptr; Seq p; int num=0; for(int l=1;l<=nl;l++){ int k=r.i(0,5); std::vector<double> z,t; for(int i=0;i<k;i++) z.push_back(cum[l-1]+c.thick[l-1]*r.u(0.001,0.999)); std::sort(z.begin(),z.end()); z.push_back(cum[l]); for(int i=0;i<=k;i++) t.push_back(r.u(0.02,0.6)); std::sort(t.rbegin(),t.rend()); for(int i=0;i<=k;i++){ Front f{z[i],t[i],0,0,0,l,++num,i==k}; listInsertFront(f.depth,f.theta,f.num,l,f.bot,&h); p.push_back(f); } }
  double a=lgar_calc_mass_bal(cum.data(),h),b=storage(c,p); x.cnt("storage_checks"); if(!(std::fabs(a-b)<=1e-9*(1+b))) x.viol("storage","the water of a profile of "+std::to_string(p.size())+" fronts in "+std::to_string(nl)+" layers is computed as "+g17(a)+" cm, it holds "+g17(b)+" cm");
  int fd=wetting_front_free_drainage(h); x.cnt("mobile_front_checks"); if(fd!=freeFront(p)+1) x.viol("mobile","the uppermost mobile front is "+std::to_string(freeFront(p)+1)+", the model takes "+std::to_string(fd)); if(lgar_calc_mass_bal(cum.data(),nullptr)!=0) x.viol("storage","an empty profile holds water"); listDelete(h);
}
inline void c31(Ctx&x){
  Rng&r=x.r; Soil s=rndSoil(r,r.i(0,2)); double m=s.m(); std::string lab="theta_r="+g17(s.thr)+" theta_e="+g17(s.the)+" alpha="+g17(s.alpha)+" n="+g17(s.n)+" Ks="+g17(s.Ks); x.sample(lab); int N=x.thorough?400:60; double R=s.the-s.thr;
  double ph=-1,pt=0; std::vector<double> hs; for(int i=0;i<N;i++) hs.push_back(r.p(0.05)?0:r.lu(1e-6,1e7)); hs.push_back(0); std::sort(hs.begin(),hs.end());
  for(double h:hs){ x.cnt("retention_checks"); double t=calc_theta_from_h(h,s.alpha,m,s.n,s.the,s.thr),w=vgTheta(s,h); if(!(std::fabs(t-w)<=1e-11)) x.viol("theta","moisture at head "+g17(h)+" is "+g17(t)+", expected "+g17(w)+"; "+lab); if(!(t>=s.thr-1e-15&&t<=s.the+1e-15)) x.viol("range","moisture "+g17(t)+" at head "+g17(h)+" outside its range; "+lab); if(ph>=0&&!(t<=pt+1e-15)) x.viol("monotone","moisture rises from "+g17(pt)+" to "+g17(t)+" as the head grows from "+g17(ph)+" to "+g17(h)+"; "+lab); ph=h; pt=t;
    double Se=calc_Se_from_h(h,s.alpha,m,s.n); if(!(std::fabs(Se-vgSe(s,h))<=1e-9)) x.viol("Se","effective saturation at head "+g17(h)+" is "+g17(Se)+", expected "+g17(vgSe(s,h))+"; "+lab); double S2=calc_Se_from_theta(w,s.the,s.thr); if(!(std::fabs(S2-(w-s.thr)/R)<=1e-13)) x.viol("Se","effective saturation of moisture "+g17(w)+" is "+g17(S2)+"; "+lab);
    double Sr=vgSe(s,h); if(Sr>0&&Sr<1){ double hb=calc_h_from_Se(Sr,s.alpha,m,s.n); double back=vgSe(s,hb); x.cnt("inverse_checks"); if(!(hb>=0)||!(std::fabs(back-Sr)<=1e-9*Sr+1e-13)) x.viol("inverse","head of effective saturation "+g17(Sr)+" is "+g17(hb)+", at which the saturation is "+g17(back)+"; "+lab); } }
  { double h1=calc_h_from_Se(1.0,s.alpha,m,s.n); if(h1!=0) x.viol("inverse","head at saturation is "+g17(h1)+"; "+lab); double k1=calc_K_from_Se(1.0,s.Ks,m),k0=calc_K_from_Se(0.0,s.Ks,m); if(!(std::fabs(k1-s.Ks)<=1e-12*s.Ks)||k0!=0) x.viol("K_ends","conductivity at saturation "+g17(k1)+" and at residual "+g17(k0)+"; "+lab); }
  double pS=-1,pK=0; std::vector<double> Ss; for(int i=0;i<N;i++) Ss.push_back(r.p(0.3)?1-r.lu(1e-9,0.5):r.p(0.3)?r.lu(1e-4,1):r.u()); std::sort(Ss.begin(),Ss.end());
  for(double S:Ss){ x.cnt("conductivity_checks"); double k=calc_K_from_Se(S,s.Ks,m); double lo=s.Ks*vgKrSe(s,std::max(0.0,S-1e-14)),hi=s.Ks*vgKrSe(s,std::min(1.0,S+1e-14)); double tol=1e-7*hi+1e-16*s.Ks; if(!(k>=lo-tol&&k<=hi+tol)) x.viol("K","conductivity at effective saturation "+g17(S)+" is "+g17(k)+", expected "+g17(s.Ks*vgKrSe(s,S))+"; "+lab); if(!(k>=0&&k<=s.Ks*(1+1e-12))) x.viol("K_range","conductivity "+g17(k)+" outside [0,Ks]; "+lab); if(pS>=0&&!(k>=pK*(1-1e-6)-1e-16*s.Ks)) x.viol("K_monotone","conductivity falls from "+g17(pK)+" to "+g17(k)+" as saturation grows; "+lab); pS=S; pK=k; }
  soil_properties_ tab[3]; memset(tab,0,sizeof tab); { std::ofstream o(x.dir+"/soil.dat"); o<<"name theta_r theta_e alpha n Ks\n\"soil\" "<<g17(s.thr)<<" "<<g17(s.the)<<" "<<g17(s.alpha)<<" "<<g17(s.n)<<" "<<g17(s.Ks)<<"\n"; } lgar_read_vG_param_file((x.dir+"/soil.dat").c_str(),1,15495.0,tab); soil_properties_&q=tab[1];
  double lam,pb; brooksCorey(s,lam,pb); x.cnt("brooks_corey_checks"); if(!(std::fabs(q.bc_lambda-lam)<=1e-10*lam)||!(std::fabs(q.bc_psib_cm-pb)<=1e-10*pb)) x.viol("brooks_corey","Brooks-Corey lambda "+g17(q.bc_lambda)+" and head "+g17(q.bc_psib_cm)+", expected "+g17(lam)+" and "+g17(pb)+"; "+lab);
  { // saturated soil below the front: the formula is 0/0 there, its limit is the full Green-Ampt suction
    double Hc=q.bc_psib_cm*(2+3*q.bc_lambda)/(1+3*q.bc_lambda),G=calc_Geff(true,s.the,s.the,s.the,s.thr,s.alpha,s.n,m,q.h_min_cm,s.Ks,120,q.bc_lambda,q.bc_psib_cm); x.cnt("saturated_drives"); if(!(std::fabs(G-Hc)<=1e-9*Hc)) x.viol("G_closed","capillary drive into saturated soil is "+g17(G)+" cm, the limit of the formula is "+g17(Hc)+"; "+lab); G=calc_Geff(false,s.the,s.the,s.the,s.thr,s.alpha,s.n,m,q.h_min_cm,s.Ks,120,q.bc_lambda,q.bc_psib_cm); if(!(G==0)) x.viol("G","numerical capillary drive between equal moistures is "+g17(G)+"; "+lab); }
  for(int i=0;i<8;i++){ double S1=r.p(0.3)?r.u(0.05,0.3):r.u(0.05,0.95), S2=r.p(0.5)?1.0:S1+(1-S1)*r.u(0.05,1); double t1=s.thr+R*S1,t2=S2==1?s.the:s.thr+R*S2; for(int cf=0;cf<2;cf++){ double G=calc_Geff(cf,t1,t2,s.the,s.thr,s.alpha,s.n,m,q.h_min_cm,s.Ks,120,q.bc_lambda,q.bc_psib_cm); Cfg c; c.closedG=cf; GVal g=capillaryDrive(c,s,t1,t2); double lo=std::min(g.a,g.b),hi=std::max(g.a,g.b); x.cnt(cf?"closed_drives":"numerical_drives"); if(std::isnan(g.a)) continue;
      if(!(G>=0)||!(G>=lo*(1-1e-6)-1e-12&&G<=hi*(1+1e-6)+1e-12)) x.viol(cf?"G_closed":"G","capillary drive between moistures "+g17(t1)+" and "+g17(t2)+" is "+g17(G)+" cm, expected "+g17(g.a)+(cf?"":" (exact integral "+g17(g.b)+")")+"; "+lab);
      double k=r.lu(0.05,20); double G2=calc_Geff(cf,t1,t2,s.the,s.thr,s.alpha,s.n,m,q.h_min_cm,s.Ks*k,120,q.bc_lambda,q.bc_psib_cm); if(!(std::fabs(G2-G)<=1e-6*G+1e-12)) x.viol("G_scale","capillary drive depends on the saturated conductivity: "+g17(G)+" and "+g17(G2)+"; "+lab); x.sig(mixh(hstr(g17(s.n)),mixh(cf,(int)(S1*10)*11+(int)(S2*10)))); } }
}
} // namespace mon
