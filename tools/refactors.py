#!/usr/bin/env python3
"""Rewrites that keep the behaviour (up to rounding): the checks concerned have to stay quiet.

Usage: tools/refactors.py [NAME...]     (works on a scratch clone of /repo, removed afterwards)
"""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def refactor(name, props, *edits):
    R.append((name, props, edits))


refactor("interp1d-two-points", "C01 C02 C03", ("Interp1d.h", """    YScalar a_ = a.at(index - 1);
    YScalar b_ = b.at(index - 1);

    return a_ * x + b_;""", """    const XReal x0 = (*this->xcoord)[index - 1];
    const YScalar y0 = (*this->yval)[index - 1];
    return y0 + a[index - 1] * (x - x0);"""))
refactor("interp1d-weights", "C01 C02 C03", ("Interp1d.h", """    YScalar a_ = a.at(index - 1);
    YScalar b_ = b.at(index - 1);

    return a_ * x + b_;""", """    const XReal x0 = (*this->xcoord)[index - 1], x1 = (*this->xcoord)[index];
    const XReal w = (x - x0) / (x1 - x0);
    return (XReal(1) - w) * (*this->yval)[index - 1] + w * (*this->yval)[index];"""))
refactor("interp1d-linear-search", "C01 C02 C03", ("Interp1d.h", """    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);
    auto index = std::distance(this->xcoord->begin(), upper);
""", """    unsigned long index = 0;
    while (index < this->ndata && (*this->xcoord)[index] < x) ++index;
"""))
refactor("interp1d-intercept", "C01 C02 C03", ("Interp1d.h", "b.push_back((yi * xii - xi * yii) / xii_m_xi);", "b.push_back(yi - xi * a.back());"))
refactor("interp2d-nested", "C04 C05", ("Interp2d.h", "return a1_ + a2_*x + a3_*y + a4_*x*y;", "return (a1_ + a3_*y) + x*(a2_ + a4_*y);"))
refactor("interp2d-weights", "C04 C05", ("Interp2d.h", """        auto idata = iy + (ix-1)*(this->ny-1) - 1;
""", """        const auto &xs = *this->xcoord; const auto &ys = *this->ycoord; const auto &d = *this->mdata;
        const Real u = (x - xs[ix-1]) / (xs[ix] - xs[ix-1]), v = (y - ys[iy-1]) / (ys[iy] - ys[iy-1]);
        if (u == u && v == v) {
            return (1-u)*((1-v)*d[(ix-1)*this->ny+iy-1] + v*d[(ix-1)*this->ny+iy]) + u*((1-v)*d[ix*this->ny+iy-1] + v*d[ix*this->ny+iy]);
        }
        auto idata = iy + (ix-1)*(this->ny-1) - 1;
"""))
refactor("lut1d-find", "C03", ("LookupTable1D.h", """    auto i = GetNbSeries();

    // Trying to insert the new name/index into the association map
    auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));

    if (!res_pair.second) { // Name already exists into the map
      std::cout << "Data have not been added to the LUT" << std::endl;

    } else {""", """    auto res_pair = assoc.emplace(name, GetNbSeries());

    if (res_pair.second) {"""))
refactor("lut1d-iterate", "C03", ("LookupTable1D.h", """    std::string name;
    unsigned long idx;

    for (auto elt : assoc) {
      name = elt.first;
      idx = elt.second;

      out[name] = interpolators[idx]->Eval(x);

    }""", """    for (auto it = assoc.begin(); it != assoc.end(); ++it) {
      out.emplace(it->first, interpolators.at(it->second)->Eval(x));
    }"""))
refactor("lut2d-order", "C05", ("LookupTable2D.h", """        MData.push_back(Data_shared);
        interpolators.push_back(std::move(interp_unique));
        assoc.insert(std::pair<std::string, unsigned long>(name, i));
""", """        assoc[name] = i;
        interpolators.push_back(std::move(interp_unique));
        MData.push_back(Data_shared);
"""), ("LookupTable2D.h", """        if (assoc.find(name) == assoc.end()) {
            return false;
        } else {
            return true;
        }""", "        return assoc.count(name) > 0;"))
refactor("grid-clamped", "C06 C07", ("RegularGridInterpolator.h", "  return c_interpolator->interp(point);", """  std::array<Real, _dim> inside = point;
  for (size_t dim = 0; dim < _dim; ++dim) {
    if (inside[dim] < m_limits[dim].first) inside[dim] = m_limits[dim].first;
    if (inside[dim] > m_limits[dim].second) inside[dim] = m_limits[dim].second;
  }
  return c_interpolator->interp(inside);"""))
refactor("grid-adjacent-find", "C06 C07", ("RegularGridInterpolator.h", """  for (size_t i = 1; i < vec.size(); ++i) {
    if (vec[i] <= vec[i-1]) {
      throw std::runtime_error("RegularGridInterpolator only accepts stricly monotonically increasing vectors as grid");
    }
  }""", """  if (std::adjacent_find(vec.begin(), vec.end(), std::greater_equal<Real>()) != vec.end()) {
    throw std::runtime_error("the coordinates have to increase");
  }"""))
refactor("nearest-distances", "C08", ("RegularGridNearest.h", "if (xi >= 0.5 * (coord[icell + 1] + coord[icell])) {", "if (coord[icell + 1] - xi <= xi - coord[icell]) {"))
refactor("around-clamp", "C09", ("RegularGridNearest.h", """      if (xi < *coord.begin()) {
        icell = -1;
        // TODO
      } else if (xi >= (*(coord.end() - 1))) {
        icell = coord.size() - 1;
        // TODO
      } else {
        icell = std::upper_bound(coord.begin(), coord.end(), xi) - coord.begin() - 1;
      }
""", """      icell = int(std::upper_bound(coord.begin(), coord.end(), xi) - coord.begin()) - 1;
"""))
refactor("integ-nodes", "C10", ("Integration1d.h", """                m_Y.push_back((*m_integrand)(x));
                x += dx;""", """                m_Y.push_back((*m_integrand)(m_Xmin + Scalar(i) * dx));"""))
refactor("integ-halves", "C10", ("Integration1d.h", """        c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;  // TODO: drole de costruction: faire sum + 0.5*(f[0] + f[1], plus simple
        c_Result *= 0.5 * dx;""", """        c_Result = dx * (sum + Scalar(0.5) * (m_Y.front() + m_Y.back()));"""))
refactor("trapz-segments", "C10 C23", ("Integration1d.h", """        Scalar dx1 = x[1] - x[0];
        Scalar dxN_1 = x[N-1] - x[N-2];

        Scalar sum = 0.;
        Scalar dxi, dxii;

        dxii = dx1;

        for (unsigned long i=1; i<N-1; i++) {
            dxi = dxii;
            dxii = x[i+1] - x[i];
            sum += y[i] * (dxi + dxii);
        }

        return 0.5 * (sum + y[0]*dx1 + y[N-1]*dxN_1);
""", """        Scalar sum = 0.;
        for (unsigned long i=N-1; i>0; i--) {
            sum += Scalar(0.5) * (x[i] - x[i-1]) * (y[i] + y[i-1]);
        }
        return sum;
"""), ("Integration1d.h", """        Scalar sum = 0.;
        for (unsigned long i = 1; i<N-1; i++) {
            sum += y[i];
        }

        return dx * (sum + 0.5 * (y[0] + y[N-1]));""", """        Scalar sum = 0.;
        for (unsigned long i = 0; i + 1 < N; i++) {
            sum += Scalar(0.5) * dx * (y[i] + y[i+1]);
        }
        return sum;"""))
refactor("triangle-edges", "C11", ("Integration2dTriangle.h", """      Vector3d<double> e1 = vertex_1 - vertex_3;
      Vector3d<double> e2 = vertex_2 - vertex_3;""", """      Vector3d<double> e1 = vertex_2 - vertex_1;
      Vector3d<double> e2 = vertex_3 - vertex_1;"""), ("Integration2dTriangle.h", "Vector3d<double> x = (1 - alpha.at(i) - beta.at(i)) * vertex_1 + alpha.at(i) * vertex_2 + beta.at(i) * vertex_3;",
         "Vector3d<double> x = vertex_1 + alpha[i] * (vertex_2 - vertex_1) + beta[i] * (vertex_3 - vertex_1);"))
refactor("triangle-other-vertex", "C11", ("Integration2dTriangle.h", "Vector3d<double> x = (1 - alpha.at(i) - beta.at(i)) * vertex_1 + alpha.at(i) * vertex_2 + beta.at(i) * vertex_3;",
         "Vector3d<double> x = (1 - alpha.at(i) - beta.at(i)) * vertex_3 + alpha.at(i) * vertex_1 + beta.at(i) * vertex_2;"))
refactor("horner-powers", "C12 C13", ("Polynomial.h", """    T result = coefficients.at(size - 1);
    int i = size - 2;
    while (i >= 0) {
      result = result * x0 + coefficients.at(i);
      --i;
    }
""", """    T result = coefficients.at(0);
    T p = x0;
    for (int i = 1; i < size; ++i) {
      result += coefficients.at(i) * p;
      p *= x0;
    }
"""))
refactor("cheb-direct-sum", "C12 C13", ("ChebyshevSeries1d.h", """      ai.at(0) *= 2.;
      T result = boost::math::chebyshev_clenshaw_recurrence(ai.data(), ai.size(), xunit);
""", """      T result = 0.;
      for (int i = m_order_x; i >= 0; --i) {
        result += ai[i] * Chebyshev_polynomial(i, xunit);
      }
"""))
refactor("cheb-cosine-nodes", "C12 C13", ("ChebyshevSeries1d.h", "double Ti = Chebyshev_polynomial(i, x_tilde.at(r));", "double Ti = cos(i * MU_PI_2 * (2. * r + 1.) / (m_order_x + 1.));"))
refactor("cheb-affine", "C12 C13", ("ChebyshevSeries1d.h", "return (2. / (m_x_max - this->m_x_min)) * (xdomain - 0.5 * (m_x_max + this->m_x_min));", "return ((xdomain - this->m_x_min) - (m_x_max - xdomain)) / (m_x_max - this->m_x_min);"),
         ("PowerSeries1d.h", "return (2. / (m_x_max - this->m_x_min)) * (xdomain - 0.5 * (m_x_max + this->m_x_min));", "return (2. * xdomain - m_x_max - this->m_x_min) / (m_x_max - this->m_x_min);"))
refactor("cheb-transformation-integer", "C13", ("ChebyshevSeries1d.h", """        int floor_plus = floor(0.5 * ljkj_plus);
        int floor_minus = floor(0.5 * (lj - kj));
        lambda = pow(-1, floor_minus) * pow(2., kj - 1.) * lj""", """        int floor_plus = ljkj_plus / 2;
        int floor_minus = (lj - kj) / 2;
        lambda = (floor_minus % 2 ? -1. : 1.) * std::ldexp(0.5, kj) * lj"""))
refactor("angle-floor", "C15", ("Angles.h", """    Real angle = fmod(a, (Real) 360.);
    if (angle < 0) angle += (Real) 360.;
    return angle < (Real) 360. ? angle : Real(0);  // a tiny negative angle may round up to the period""", """    const Real period = 360;
    Real angle = std::fmod(a, period);
    while (angle < 0) angle = period + angle;
    if (angle == period) angle = 0;
    return angle;"""))
refactor("angle-remainder", "C15", ("Angles.h", """    Real angle = modulo2pi(a);
    if (angle < 0) {
      angle += MU_2PI;
    }
    return angle;""", """    return modulo2pi(a);"""))
refactor("euler-half-angle-helper", "C16", ("Geometry.h", """    q.w() = cos(r) * cos(p) * cos(y) + sin(r) * sin(p) * sin(y);
    q.x() = sin(r) * cos(p) * cos(y) - cos(r) * sin(p) * sin(y);
    q.y() = cos(r) * sin(p) * cos(y) + sin(r) * cos(p) * sin(y);
    q.z() = cos(r) * cos(p) * sin(y) - sin(r) * sin(p) * cos(y);
    return q;""", """    q = Eigen::AngleAxisd(2 * y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(2 * p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(2 * r, Eigen::Vector3d::UnitX());
    return q;"""))
refactor("euler-matrix-product", "C16", ("Geometry.h", """    Eigen::Matrix3d R;
    R(0, 0) = cos(y) * cos(p);
    R(1, 0) = sin(y) * cos(p);
    R(2, 0) = -sin(p);

    R(0, 1) = cos(y) * sin(p) * sin(r) - sin(y) * cos(r);
    R(1, 1) = sin(y) * sin(p) * sin(r) + cos(y) * cos(r);
    R(2, 1) = cos(p) * sin(r);

    R(0, 2) = cos(y) * sin(p) * cos(r) + sin(y) * sin(r);
    R(1, 2) = sin(y) * sin(p) * cos(r) - cos(y) * sin(r);
    R(2, 2) = cos(p) * cos(r);

    return R;""", """    return (Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix();"""))
refactor("quaternion-matrix", "C16", ("Geometry.h", "    R(0, 0) = q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z();", "    R(0, 0) = 1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z());"),
         ("Geometry.h", "sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0))", "std::hypot(R(2, 1), R(2, 2))"))
refactor("fft-frequencies", "C22", ("FFT.h", """                out[i] = convert_frequency(f, HERTZ, frequencyUnit);
                f += df;""", """                f = i * df;
                out[i] = convert_frequency(f, HERTZ, frequencyUnit);"""))
refactor("convolution-one-loop", "C23", ("Convolution.h", """        std::vector<Real> integrand(N);
        if (reverse) {
            for (unsigned long i = 0; i < N; i++) { // TODO: gerer le cas ou reverse est false (il faut renverser le signal ici ou creer une boucle differente)
                integrand[i] = kernel[i] * signal[i];
            }
        } else {
            for (unsigned long i = 0; i < N; i++) { // TODO: gerer le cas ou reverse est false (il faut renverser le signal ici ou creer une boucle differente)
                integrand[i] = kernel[i] * signal[N-i-1];
            }
        }
""", """        std::vector<Real> integrand;
        for (unsigned long i = 0; i < N; i++) {
            integrand.push_back(signal[reverse ? i : N - 1 - i] * kernel[i]);
        }
"""))
refactor("spline-scaling", "C24", ("Spline.h", "return (x - x_min) / (x_max - x_min);", "const Real length = x_max - x_min; return x / length - x_min / length;"))
refactor("spline-delegate", "C24", ("Spline.h", """            // Creating a Spline object with standard costructor
            Spline<Real, Dim, Deg> spl(xvals, yvals);

            // Copying Spline attributes into the current instance
            x_min = spl.x_min;
            x_max = spl.x_max;
            spline_ = spl.spline_;""", """            *this = Spline<Real, Dim, Deg>(xvals, yvals);"""))
refactor("linspace-steps", "C20", ("VectorGeneration.h", """        for (unsigned long i=0; i<numm1; ++i) {
            out[i] = start + i*step;
        }
        out[numm1] = stop;""", """        for (unsigned long i=0; i<num; ++i) {
            out[i] = i == numm1 ? stop : i == 0 ? start : start + (stop - start) * i / numm1;
        }"""))
refactor("logspace-exp", "C20", ("VectorGeneration.h", "            out.at(i) = pow(base, out.at(i));", "            out[i] = std::exp(out[i] * std::log(base));"))
refactor("sum-accumulate", "C21", ("StdVector.h", """        for (const Scalar& elt: vector) {
            sum += elt;
        }""", """        for (auto it = vector.rbegin(); it != vector.rend(); ++it) {
            sum = sum + *it;
        }"""))
refactor("negate-minus", "C21", ("StdVector.h", "        Scale(v, Scalar(-1));", "        for (Scalar& vi: v) vi = -vi;"))
refactor("ramp-two-points", "C21 C20", ("Functions.h", "              out[i] = a*xi + b;", "              out[i] = y_left + a*(xi - x_min);"))
refactor("door-direct", "C21 C20", ("Functions.h", """      auto out = Heaviside(x, x_min);
      out = Minus(out, Heaviside<Real>(x, x_max));
      Scale<Real>(out, height);
      return out;""", """      auto up = Heaviside(x, x_min), down = Heaviside<Real>(x, x_max);
      for (unsigned long i=0; i<up.size(); i++) up[i] = height * up[i] - height * down[i];
      return up;"""))
refactor("vector-sort-greater", "C26", ("VectorN.h", """        std::sort(this->data(), this->data()+this->size());

        if (!ascending) Reverse();
""", """        if (ascending) std::sort(this->data(), this->data()+this->size());
        else std::sort(this->data(), this->data()+this->size(), std::greater<Scalar>());
"""), ("VectorN.h", "return this->Eigen::Matrix<Scalar, Eigen::Dynamic, 1>::template lpNorm<Eigen::Infinity>();", "return this->size() ? this->cwiseAbs().maxCoeff() : Scalar(0);"))


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(names):
    d = tempfile.mkdtemp(prefix="refactor")
    bad = 0
    try:
        c = os.path.join(d, "repo")
        sh(["git", "clone", "-q", "/repo", c])
        for name, props, edits in R:
            if names and name not in names:
                continue
            sh(["git", "-C", c, "checkout", "--", "."])
            ok = True
            for f, old, new in edits:
                p = os.path.join(c, "src", "MathUtils", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print("%-28s %s: text found %d times" % (name, f, s.count(old)))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                bad += 1
                continue
            for q in props.split():
                r = sh([sys.executable, os.path.join(V, "run.py"), q, "quick"], env=dict(os.environ, VERIF_REPO=c), cwd=V)
                bad += r.returncode != 0
                t = r.stdout.strip().splitlines() or [""]
                print("%-28s %s %s  %s" % (name, q, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, "" if r.returncode == 0 else " | ".join(t[-3:])[:300]), flush=True)
    finally:
        shutil.rmtree(d)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
