#include "common.hpp"
int main(){ std::string s="let x=5; let s=\"hello, w\"; let o={p:3,q:\"qq\",r:{z:9}}; let a=[4,6,\"eight\"]; let f=function(){return 11;}; let y=12;\nobs(1+2+x);obs(x,s,o,a,y);1+2"; int N=5000;
 double t=mc::now(); for(int i=0;i<N;i++) ref::expect({s}); printf("ref %f us\n",(mc::now()-t)/N*1e6);
 t=mc::now(); for(int i=0;i<N;i++) run_real({s}); printf("real %f us\n",(mc::now()-t)/N*1e6);
 t=mc::now(); for(int i=0;i<N;i++) {vm::Vm v;} printf("vm %f us\n",(mc::now()-t)/N*1e6);
}
