//// addrdead
int x=1; int *p=&x; x=in_int(); int y=*p; printf("%d\n",y);
//// addrdead2
int x=in_int(); int *p=&x; int y=*p; x=7; printf("%d %d\n",y,*p);
//// deadchain
int x=in_int(); printf("%d\n",x); int z=in_int(); int y; x=5; y=x; printf("%d\n",z);
//// deadchain2
int x=in_int(); int z=in_int(); printf("%d\n",x); int y; int w; x=5; y=x+1; w=y+2; printf("%d\n",z);
