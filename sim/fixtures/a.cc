namespace n { template<class T> __attribute__((noinline)) T twice(T x){ return x+x; } struct S { int v; int get() const; }; inline int helper(int a){ return a*a+1; } }
int n::S::get() const { return helper(v)+twice<int>(v); }
extern "C" double run(double d){ return n::twice<double>(d)+n::helper((int)d); }
static __attribute__((section(".text.cold"))) __attribute__((noinline)) int cold(int x){ return x? x-1:0; }
int table[4]={1,2,3,4};
extern "C" int start(int i){ n::S s{table[i&3]}; return s.get()+cold(i); }
