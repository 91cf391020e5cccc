//// tail1
int sum(int n, int acc){ if(n<=0) return acc; return sum(n-1, acc+n); }
int main(int argc,char**argv){ int a=in_int(); if(a<5) printf("%d\n",sum(a,in_int())); return 0; }
//// tailswap
int f(int n, int x, int y){ if(n<=0) return x-y; return f(n-1, y, x); }
int main(int argc,char**argv){ int a=in_int(); int x=in_int(); int y=in_int(); if(a<5) printf("%d\n",f(a,x,y)); return 0; }
//// tail2
int f(int n, int x){ if(n<=0) return x; if (x>5) return f(n-1,x-1); return f(n-2,x+3); }
int main(int argc,char**argv){ int a=in_int(); int x=in_int(); if(a<4) printf("%d\n",f(a,x)); return 0; }
//// tail3
int g(int x);
int f(int n, int x){ if(n<=0) return x; if (x==1) return f(n-1,x+1); if (x==2) return g(x); return f(n-2,x+3); }
int g(int x){ return x*2; }
int main(int argc,char**argv){ int a=in_int(); int x=in_int(); if(a<4) printf("%d\n",f(a,x)); return 0; }
//// taillong
long f(int n, long x){ if(n<=0) return x; return f(n-1,x*3); }
int main(int argc,char**argv){ int a=in_int(); long x=in_long(); if(a<4) printf("%ld\n",f(a,x)); return 0; }
//// tailchar
int f(char n, int x){ if(n<=0) return x; return f(n-1,x+1); }
int main(int argc,char**argv){ char a=in_char(); int x=in_int(); if(a<4) printf("%d\n",f(a,x)); return 0; }
//// tailaddr
int f(int n, int *p){ int l=n; if(n<=0) return *p; return f(n-1,&l); }
int main(int argc,char**argv){ int a=in_int(); int z=77; if(a<4) printf("%d\n",f(a,&z)); return 0; }
//// tailaddr2
int f(int n, int *p){ if(n<=0) return *p; n=n-1; return f(n,&n); }
int main(int argc,char**argv){ int a=in_int(); int z=77; if(a<4) printf("%d\n",f(a,&z)); return 0; }
//// taillocals
int f(int n, int s){ int arr[2]; arr[0]=n; arr[1]=s; if(n<=0) return arr[1]; return f(arr[0]-1, arr[1]+arr[0]); }
int main(int argc,char**argv){ int a=in_int(); if(a<4) printf("%d\n",f(a,in_int())); return 0; }
//// tailvoid
void f(int n){ if(n<=0) return; printf("%d\n",n); f(n-1); }
int main(int argc,char**argv){ int a=in_int(); if(a<4) f(a); return 0; }
//// tailcond
int f(int n, int s){ return n<=0 ? s : f(n-1,s+n); }
int main(int argc,char**argv){ int a=in_int(); if(a<4) printf("%d\n",f(a,in_int())); return 0; }
