// commit(a, b): the watcher of a writes b again; the watcher of b must be told 1 by the first commit (C11, ad0d1fa).
#include <lager/state.hpp>
#include <lager/reader.hpp>
#include <lager/watch.hpp>
#include <lager/commit.hpp>
#include <cstdio>
int main(){
  auto a=lager::make_state(0); auto b=lager::make_state(0);
  int n=0; 
  lager::watch(b,[&](int v){printf("b watcher %d\n",v);});
  lager::watch(a,[&](int v){printf("a watcher %d b=%d\n",v,b.get()); if(v==1) b.set(7);});
  a.set(1); b.set(1);
  lager::commit(a,b); printf("after commit b=%d\n",b.get());
  lager::commit(b); printf("after commit2 b=%d\n",b.get());
  a.set(2); b.set(2); // variant: b written back to same
  lager::commit(a,b);
}
