//// if1
int a=in_int(); if(a>0) printf("pos\n"); if(a<0) printf("neg\n"); else if (a==0) printf("zero\n"); else printf("other\n");
//// while1
int a=in_int(); int n=0; while(a>0 && n<5){ a=a/2; n++; } printf("%d %d\n",a,n);
//// dowhile
int a=in_int(); int n=0; do { n++; a-=3; } while(a>0 && n<4); printf("%d %d\n",a,n);
//// for1
int a=in_int(); int s=0; for(int i=0;i<4;i++){ s+=a*i; } printf("%d\n",s);
//// for2
int a=in_int(); int s=0; int i; for(i=0;i<a && i<4;i++){ s+=i; } printf("%d %d\n",s,i);
//// forbreak
int a=in_int(); int i; for(i=0;;i++){ if(i==a) break; if(i>4) break; } printf("%d\n",i);
//// forcontinue
int a=in_int(); int s=0; for(int i=0;i<5;i++){ if(i==a) continue; s+=i; } printf("%d\n",s);
//// whilecontinue
int a=in_int(); int i=0,s=0; while(i<5){ i++; if(i==a) continue; s+=i; } printf("%d\n",s);
//// docontinue
int a=in_int(); int i=0,s=0; do{ i++; if(i==a) continue; s+=i; }while(i<5); printf("%d\n",s);
//// nested
int a=in_int(); int s=0; for(int i=0;i<3;i++){ for(int j=0;j<3;j++){ if(j==a) break; if(i==a) continue; s+=i*3+j; } } printf("%d\n",s);
//// nested3
int a=in_int(); int s=0; int i=0; while(1){ int j=0; while(1){ if(j>=a||j>2) break; j++; s+=j; } i++; if(i>2) break; } printf("%d\n",s);
//// scope
int a=in_int(); { int a=3; printf("%d\n",a); { int a=4; printf("%d\n",a);} a=5; } printf("%d\n",a); for(int i=0;i<1;i++){ int a=9; printf("%d\n",a);} printf("%d\n",a);
//// scopeglob
int a=1;
int f(){ return a; }
int main(int argc,char**argv){ int a=in_int(); printf("%d %d\n",a,f()); return 0; }
//// fallthru
int f(int x){ if(x>3) return 1; return 2; } int main(){ printf("%d\n",f(in_int())); return 0;}
