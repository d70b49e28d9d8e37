#include "h2.hpp"
using namespace gen; using ref::M3;

static bool wOk( const M3& m, P p ) { LD w=ref::apw(m,p); return std::fabs(w)>0.05L*(std::fabs(m[2][0]*p.x)+std::fabs(m[2][1]*p.y)+std::fabs(m[2][2])) && w!=0; }
static void chkPoint( mon::Case& c, const std::string& k, const Homogr& H, const M3& m )
{
	for( int t=0;t<2;t++ )
	{
		P p=pt(c.rng); if( !wOk(m,p) ) continue; P e=ref::ap(m,p);
		LD w=std::fabs(ref::apw(m,p)), mag=(std::fabs(m[0][0]*p.x)+std::fabs(m[0][1]*p.y)+std::fabs(m[0][2])+std::fabs(m[1][0]*p.x)+std::fabs(m[1][1]*p.y)+std::fabs(m[1][2]))/w;
		nearP(c,k,H*mk(p),e,1e-9L*(1+mag+ref::norm(e)));
		// any homogeneous representation of the point gives the same image
		NT s=c.rng.coin()?-2:4; nearP(c,k+"-scaled",H*Point2d((NT)p.x*s,(NT)p.y*s,s),e,1e-9L*(1+mag+ref::norm(e)));
	}
}
static void chkLine( mon::Case& c, const std::string& k, const Homogr& H, const M3& m )
{
	M3 i=ref::inv(m); if( std::fabs(i[2][2])<1e-3L*frob(i) || condM(m)>1e5 ) return;
	P p=pt(c.rng),q=ptFar(c.rng,p,1.0); if( !wOk(m,p)||!wOk(m,q) ) return;
	P a=ref::ap(m,p),b=ref::ap(m,q); LD d=ref::dist(a,b); if( d<0.05 || ref::norm(a)>1e4||ref::norm(b)>1e4 ) return;
	Line2d l=H*(mk(p)*mk(q)); LD tol=1e-6L*(1+ref::norm(a)+ref::norm(b));
	c.near(k+"-p",dL(l,a),0,tol); c.near(k+"-q",dL(l,b),0,tol);
}

SECTION(history,9000)
{
	Homogr H; M3 m=ref::eye(); c.chk("default-unit",projDiff(rdM(H),m)<1e-15);
	Homogr other=mkH(rndH(c.rng)); if( c.rng.coin() ) { Line2d l=other*Line2d(1,2,3); (void)l; }
	int n=(int)c.rng.i(2,14);
	for( int s=0;s<n;s++ )
	{
		int op=(int)c.rng.i(0,20); M3 t; bool norm=true; std::string nm;
		LD a=c.rng.d(-3.2,3.2), x=co(c.rng,40), y=co(c.rng,40), k=std::exp(c.rng.d(-0.9,0.9)), k2=std::exp(c.rng.d(-0.9,0.9)); M3 g=rndH(c.rng); int r=(int)c.rng.i(0,2),q=(int)c.rng.i(0,2); LD v = r==2&&q==2 ? (LD)c.rng.d(0.5,4) : r==2 ? (LD)c.rng.d(-0.002,0.002) : (LD)c.rng.d(-3,3);
		x=(LD)(double)x; 
		switch( op )
		{
			case 0: nm="setRotation"; t=ref::mR(a); break;
			case 1: nm="setTranslation"; t=ref::mT(x,y); break;
			case 2: nm="setScale"; t=ref::mS(k,k); break;
			case 3: nm="setScale2"; t=ref::mS(k,k2); break;
			case 4: nm="addRotation"; t=ref::mul(ref::mR(a),m); break;
			case 5: nm="addTranslation"; t=ref::mul(ref::mT(x,y),m); break;
			case 6: nm="addScale"; t=ref::mul(ref::mS(k,k),m); break;
			case 7: nm="addScale2"; t=ref::mul(ref::mS(k,k2),m); break;
			case 8: nm="mulRight"; t=ref::mul(m,g); break;
			case 9: nm="mulLeft"; t=ref::mul(g,m); break;
			case 10: nm="inverse"; t=ref::inv(m); break;
			case 11: nm="transpose"; t=ref::transp(m); norm=false; break;
			case 12: nm="init"; t=ref::eye(); break;
			case 13: nm="set"; t=m; t[r][q]=v; norm=false; break;
			case 14: nm="valueRef"; t=m; t[r][q]=v; norm=false; break;
			case 15: nm="getRaw"; t=m; t[r][q]=v; norm=false; break;
			case 16: nm="normalize"; t=m; break;
			case 17: nm="assignOther"; t=g; break;
			case 18: nm="fromVector"; t=g; break;
			case 19: nm="fromArray"; t=g; break;
			default: nm="copySelf"; t=m; norm=false; break;
		}
		LD cd=condM(t); if( cd>1e6 || std::fabs(t[2][2])<0.01L*frob(t)*1e-2 || frob(t)>1e4*std::fabs(t[2][2]) || std::fabs(t[2][2])<1e-6 ) { c.cls("op-rejected"); continue; }
		if( op==10 && std::fabs(ref::det(m))<1e-9 ) continue;
		c.in(nm.c_str(),a,x,y,k,k2,r,q,v);
		NT A=(NT)a,X=(NT)x,Y=(NT)y,K=(NT)k,K2=(NT)k2;
		switch( op )
		{
			case 0: if( c.rng.coin() ) H.setRotation(A); else H=Homogr(A); break;
			case 1: if( c.rng.coin() ) H.setTranslation(X,Y); else H=Homogr(X,Y); break;
			case 2: H.setScale(K); break; case 3: H.setScale(K,K2); break;
			case 4: H.addRotation(A); break; case 5: H.addTranslation(X,Y); break; case 6: H.addScale(K); break; case 7: H.addScale(K,K2); break;
			case 8: { auto G=mkH(g); H=H*G; break; } case 9: { auto G=mkH(g); H=G*H; break; }
			case 10: H.inverse(); break; case 11: H.transpose(); break; case 12: H.init(); break;
			case 13: H.set(r,q,(NT)v); break; case 14: H.value(r,q)=(NT)v; break; case 15: H.getRaw()[r][q]=(NT)v; break;
			case 16: H.normalize(); break;
			case 17: { Homogr G; setM(G,g); if( c.rng.coin() ) { Line2d l=G*Line2d(1,1,5); (void)l; } H=G; break; }
			case 18: { std::vector<std::vector<double>> vv(3,std::vector<double>(3)); LD f=c.rng.coin()?1:-2.5; for(int i=0;i<3;i++)for(int j=0;j<3;j++) vv[i][j]=(double)(f*g[i][j]); H=Homogr(vv); break; }
			case 19: { std::array<std::array<double,3>,3> vv; LD f=c.rng.coin()?1:-2.5; for(int i=0;i<3;i++)for(int j=0;j<3;j++) vv[i][j]=(double)(f*g[i][j]); H=Homogr(vv); break; }
			default: { Homogr G=H; if( c.rng.coin() ) { Homogr Z; Z=G; G=Z; } std::swap(H,G); H=H; c.chk("copy-equal",projDiff(rdM(G),rdM(H))<1e-15); }
		}
		c.cls("op:"+nm);
		M3 now=rdM(H); LD df=projDiff(now,t);
		c.chkf("matrix/"+nm,df<=1e-9,[&](std::ostream&o){ o<<"step "<<s<<" diff "<<df<<" got "<<str(now)<<" expected "<<str(t); });
		if( norm ) c.near("normalised/"+nm,now[2][2],1,1e-12);
		if( H.isNormalized() ) c.near("flag-true-means-normalised/"+nm,now[2][2],1,1e-12);
		if( df>1e-6 ) return;
		m=now;
		c.near("determ",H.determ(),ref::det(m),1e-9L*(1+frob(m)*frob(m)*frob(m)));
		if( c.rng.coin() ) chkPoint(c,"point-after/"+nm,H,m);
		if( c.rng.coin() ) chkLine(c,"line-after/"+nm,H,m);
		if( c.rng.coin(4) )
		{
			// proportional matrices compare equal, others differ
			Homogr G=H; c.chk("eq-copy",G==H && !(G!=H)); NT f=c.rng.coin()?-2:0.25; Homogr Z; for(int i=0;i<3;i++)for(int j=0;j<3;j++) Z.set(i,j,(NT)m[i][j]*f);
			{ Homogr Y=c.rng.coin()?Homogr((NT)0.3):mkH(rndH(c.rng)); Y=Z; Homogr V(Z); Homogr W; W.getRaw(); W=Y; c.chkf("eq-proportional-assigned",Y==H && H==Y && !(Y!=H) && V==Z && V==H && W==H && Y==Z,[&](std::ostream&o){ o<<"after "<<nm<<"\n"<<Y<<H; }); }
			c.chkf("eq-proportional",Z==H && !(H!=Z),[&](std::ostream&o){ o<<"after "<<nm<<"\n"<<Z<<H<<" normalised "<<Z.isNormalized()<<H.isNormalized(); });
			Homogr D=H; int i=(int)c.rng.i(0,2),j=(int)c.rng.i(0,1); D.value(i,j)+=(NT)(0.01*(1+frob(m))); c.chk("neq",D!=H && !(D==H) && H!=D);
			LD d2=projDiff(rdM(H),m); c.chk("compare-keeps",d2<1e-14); m=rdM(H);
			chkPoint(c,"point-after-eq",H,m);
		}
	}
	chkPoint(c,"point-final",H,m); chkLine(c,"line-final",H,m);
}

SECTION(group,9000)
{
	M3 a=rndH(c.rng),b=rndH(c.rng),g=rndH(c.rng); Homogr A=mkH(a),B=mkH(b),G=mkH(g); c.put(str(a)+str(b)+str(g)); M3 ab=ref::mul(a,b); if( std::fabs(ab[2][2])<0.05||condM(ab)>1e5 ) { c.skip("h33"); return; }
	P p=pt(c.rng); inP(c,"p",p);
	Homogr AB=A*B;
	if( wOk(b,p) ) { P q=ref::ap(b,p); if( wOk(a,q) && ref::norm(q)<1e4 ) { P e=ref::ap(a,q); LD tol=1e-8*(1+ref::norm(q)+ref::norm(e)); nearP(c,"compose",AB*mk(p),e,tol); nearP(c,"successive",A*(B*mk(p)),e,tol); } }
	// order of addition: first added first applied
	LD th=c.rng.d(-3,3),tx=co(c.rng,50),ty=co(c.rng,50),k=std::exp(c.rng.d(-1,1)),ky=std::exp(c.rng.d(-1,1));
	{ Homogr H; H.addRotation((NT)th).addTranslation((NT)tx,(NT)ty).addScale((NT)k,(NT)ky); P e=ref::rot(p,th); e={k*(e.x+tx),ky*(e.y+ty)}; nearP(c,"add-order",H*mk(p),e,1e-10*(1000)); }
	{ Homogr H; H.addTranslation((NT)tx,(NT)ty).addRotation((NT)th).addScale((NT)k); P e=ref::rot(p+P{tx,ty},th); e=k*e; nearP(c,"add-order2",H*mk(p),e,1e-10*(1000)); }
	{ Homogr H((NT)th); nearP(c,"ctor-rot",H*mk(p),ref::rot(p,th),1e-11*300); Homogr T((NT)tx,(NT)ty); nearP(c,"ctor-tr",T*mk(p),p+P{tx,ty},1e-11*300); }
	// inverse
	Homogr I=A; I.inverse(); M3 ia=ref::inv(a); if( std::fabs(ia[2][2])>1e-3*frob(ia) )
	{
		c.chkf("inverse",projDiff(rdM(I),ia)<1e-10,[&](std::ostream&o){o<<I;}); c.chk("inv*self",projDiff(rdM(I*A),ref::eye())<1e-8); c.chk("self*inv",projDiff(rdM(A*I),ref::eye())<1e-8);
		if( wOk(a,p) ) { P e=ref::ap(a,p); if( wOk(ia,e) && ref::norm(e)<1e4 ) nearP(c,"inv-undo",I*(A*mk(p)),p,1e-7*(1+ref::norm(p))); }
		Homogr II=I; II.inverse(); c.chk("inv-inv",projDiff(rdM(II),a)<1e-8);
	}
	c.chk("assoc",projDiff(rdM((A*B)*G),rdM(A*(B*G)))<1e-9); Homogr E; c.chk("identity",projDiff(rdM(E*A),a)<1e-12 && projDiff(rdM(A*E),a)<1e-12);
	Homogr T=A; T.transpose(); c.chk("transpose",projDiff(rdM(T),ref::transp(a))<1e-15); T.transpose(); c.chk("transpose2",projDiff(rdM(T),a)<1e-15);
	// containers of points
	std::vector<Point2d> v; for( int i=0;i<5;i++ ) v.push_back(mk(pt(c.rng))); auto w=v; A.applyTo(w); auto z=A*v; std::list<Point2d> li(v.begin(),v.end()); auto lz=A*li; std::array<Point2d,3> ar{v[0],v[1],v[2]}; auto az=A*ar; A.applyTo(li); A.applyTo(ar);
	auto il=lz.begin(), il2=li.begin(); for( int i=0;i<5;i++,++il,++il2 ) { Point2d e=A*v[i]; auto sm=[&](const Point2d&x){ return x.get()==e.get(); }; c.chk("apply-vector",sm(w[i])&&sm(z[i])); c.chk("apply-list",sm(*il)&&sm(*il2)); if(i<3) c.chk("apply-array",sm(az[i])&&sm(ar[i])); }
}

SECTION(refused,4000)
{
	// singular matrices: exactly representable dependent rows
	P u=ipt(c.rng,9); LD k=c.rng.i(-4,4); M3 m; for( int j=0;j<3;j++ ) { m[0][j]=c.rng.i(-9,9); m[1][j]=k*m[0][j]; m[2][j]=c.rng.i(-9,9); } if( m[2][2]==0 ) m[2][2]=1; c.put(str(m));
	{ Homogr H; setM(H,m); M3 b=rdM(H); c.throws("inverse-singular",[&]{ H.inverse(); }); c.chk("inverse-singular-keeps",projDiff(rdM(H),b)<1e-15||frob(b)==0);
	  c.throws("line-by-singular",[&]{ auto l=H*Line2d(1,2,3); (void)l; });
	  // and it stays usable afterwards
	  M3 g=rndH(c.rng); H=mkH(g); P p=pt(c.rng); if( wOk(g,p) ) nearP(c,"usable",H*mk(p),ref::ap(g,p),1e-7*(1+ref::norm(ref::ap(g,p)))); chkLine(c,"usable-line",H,g); }
	M3 z=rndH(c.rng); std::vector<std::vector<double>> v(3,std::vector<double>(3)); std::array<std::array<double,3>,3> a; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) v[i][j]=a[i][j]=(double)z[i][j];
	{ auto w=v; w[2][2]=c.rng.coin()?0.:c.rng.d(-5e-11,5e-11); c.throws("h33-null",[&]{ Homogr H(w); }); auto b=a; b[2][2]=0; c.throws("h33-null-array",[&]{ Homogr H(b); }); Homogr H; H.set(2,2,0); c.throws("h33-normalize",[&]{ H.normalize(); }); }
	{ auto w=v; w.resize(c.rng.coin()?2:4,std::vector<double>(3,1.)); c.throws("rows",[&]{ Homogr H(w); }); w=v; w[c.rng.i(0,2)].resize(c.rng.coin()?2:4,1.); c.throws("cols",[&]{ Homogr H(w); }); c.throws("empty",[&]{ Homogr H(std::vector<std::vector<double>>{}); }); }
	{ Homogr H; int r=(int)c.rng.i(0,4),q=(int)c.rng.i(3,6); if( c.rng.coin() ) std::swap(r,q); c.throws("value-range",[&]{ (void)H.value(r,q); }); c.throws("set-range",[&]{ H.set(r,q,1.); }); }
	(void)u;
}
MON_MAIN
