//// gotoback
int a=in_int(); int n=0; top: n++; if(n<a && n<4) goto top; printf("%d\n",n);
//// gotofwd
int a=in_int(); if(a>3) goto end; printf("small\n"); end: printf("end\n");
//// gotoloop
int a=in_int(); int i,j; for(i=0;i<3;i++){ for(j=0;j<3;j++){ if(i*j==a) goto out; } } out: printf("%d %d\n",i,j);
//// gototwo
int f(int a){ int n=0; top: n++; if(n<a && n<3) goto top; return n; }
int g(int a){ int n=0; top: n+=2; if(n<a && n<6) goto top; return n; }
int main(int argc,char**argv){ int a=in_int(); printf("%d\n", f(a)); printf("%d\n",g(a)); return 0; }
//// gotoirred
int a=in_int(); int n=0; if(a>5) goto mid; top: n++; mid: n+=10; if(n<25) goto top; printf("%d\n",n);
//// goto2fn
int f(int a){ if(a>5) goto out; a+=1; out: a+=10; if(a<14) goto out; return a; }
int g(int a){ if(a>6) goto out; a+=2; out: a+=20; if(a<20) goto out; return a; }
int main(int argc,char**argv){ int a=in_int(); if(a<100&&a>0) printf("%d %d\n",f(a),g(a)); return 0;}
//// gotoinloop
int a=in_int(); int s=0; for(int i=0;i<3;i++){ if(a==i) goto skip; s+=10; skip: s++; } printf("%d\n",s);
//// gotointoloop
int a=in_int(); int s=0; int i=0; if(a>3) goto in; while(i<3){ s+=10; in: s+=1; i++; } printf("%d %d\n",s,i);
//// gotoswitch
int a=in_int(); int s=0; switch(a){ case 1: s+=1; goto l3; case 2: s+=2; break; case 3: l3: s+=3; } printf("%d\n",s);
//// gotoout2
int a=in_int(); int i,j,s=0; for(i=0;i<2;i++){ for(j=0;j<2;j++){ if(a==i) goto next; if(a==j+5) goto done; s++; } next: s+=10; } done: printf("%d\n",s);
//// deadret
int f(int a){ if(a>5){ return a; a=4; printf("x\n"); } return a+1; printf("y"); }
int main(int argc,char**argv){ int a=in_int(); if(a<100) printf("%d\n",f(a)); return 0; printf("z"); }
//// deadbrk
int a=in_int(); int s=0; while(1){ s++; if(s>3){ break; s=7; } if(s==a){ continue; s=9; } s++; } printf("%d\n",s);
//// deadloop
int f(int a){ return a; while(a>3){ a--; } return 7; }
int main(int argc,char**argv){ int a=in_int(); if(a<100) printf("%d\n",f(a)); return 0; }
//// deadinf
int f(int a){ for(;;){ if(a>3) return a; a++; } printf("never"); return 7; }
int main(int argc,char**argv){ int a=in_int(); if(a>0) printf("%d\n",f(a)); return 0; }
//// irred2
int a=in_int(); int n=0; int s=0; if(a==1) goto A; if(a==2) goto B; if(a==3) goto C; goto D; A: s+=1; n++; if(n>3) goto D; goto B; B: s+=10; n++; if(n>3) goto D; goto C; C: s+=100; n++; if(n<4) goto A; D: printf("%d %d\n",s,n);
//// irred3
int a=in_int(); int n=0; int s=0; if(a>1) goto B; A: s+=1; for(int i=0;i<2;i++){ s+=5; B: s+=10; if(++n>4) goto E; if(a==9) goto A; } if(n<3) goto A; E: printf("%d %d\n",s,n);
//// irred4
int f(int a){ int n=0; if(a>1) goto B; A: n++; if(n>3) return n; B: n+=2; if(n<6) { if(a==n) goto A; goto B; } return n+100; }
int main(int argc,char**argv){ printf("%d\n",f(in_int())); return 0; }
