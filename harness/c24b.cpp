// second translation unit of C24: takes and sets decisions of its own
#include "homog2d.hpp"
using namespace h2d;
void tuB_set( int k, double v ) { switch( k ) { case 0: thr::nullDistance()=v; break; case 1: thr::nullOrthogDistance()=v; break; case 2: thr::nullAngleValue()=v; break; case 3: thr::nullDenom()=v; break; default: thr::nullDeter()=v; } }
double tuB_get( int k ) { switch( k ) { case 0: return thr::nullDistance(); case 1: return thr::nullOrthogDistance(); case 2: return thr::nullAngleValue(); case 3: return thr::nullDenom(); default: return thr::nullDeter(); } }
bool tuB_same( const Point2d& a, const Point2d& b ) { return a==b; }
bool tuB_parallel( const Line2d& a, const Line2d& b ) { return a.isParallelTo(b); }
bool tuB_flat( const Point2d& a, const Point2d& b ) { try { FRect r(a,b); return false; } catch( std::runtime_error& ) { return true; } }
bool tuB_invertible( const Homogr& h ) { Homogr k(h); try { k.inverse(); return true; } catch( std::runtime_error& ) { return false; } }
void tuB_style( int th ) { img::DrawParams dp; dp.setThickness(th); dp.setDefault(); }
std::string tuB_draw( const Segment& s ) { img::Image<img::SvgImage> im(50,50); s.draw(im); std::ostringstream o; o<<im; return o.str(); }
