// instantiates the header-only templates so that their code is extracted
#include <cmath>
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
template class Window<double>;
template class Window<float>;
typedef void (KaiserWindow::*kc)(const double *, double *) const; kc k1() { return &KaiserWindow::cut; }
typedef void (SincWindow::*sc)(const double *, double *) const; sc s1() { return &SincWindow::cut; }
KaiserWindow *k2(KaiserWindow::Parameters p) { return new KaiserWindow(p); }
SincWindow *s2(int n, double p) { return new SincWindow(n, p); }
KaiserWindow::Parameters k3(double a, double b, double c) { return KaiserWindow::parametersForBandwidth(a, b, c); }
int kaiserLength(double att, double tr) { return KaiserWindow::parametersForTransitionWidth(att, tr).length; }
double kaiserBeta(double att, double tr) { return KaiserWindow::parametersForTransitionWidth(att, tr).beta; }
double kaiserBetaBandwidth(double att, double bw, double rate) { return KaiserWindow::parametersForBandwidth(att, bw, rate).beta; }
int kaiserLengthBandwidth(double att, double bw, double rate) { return KaiserWindow::parametersForBandwidth(att, bw, rate).length; }
