// C05: matrix arithmetic, products, Kronecker products and transposition against naive sums
#include "mat.h"
using namespace ldt;
typedef Matrix<double> Mx;

static double gen_scalar(Src &s) { return s.pick(std::vector<double>{0, 1, -1, 0.5, 2, -3.25}); }

FACET(elementwise, "at least two rows and two columns", 30000) {
  int r = s.range(1, 6), q = s.range(1, 6);
  M a = gen_mat(s, r, q), b = gen_mat(s, r, q), st = gen_mat(s, r, q);
  double k = s.num(), beta = gen_scalar(s);
  int op = s.range(0, 7);
  bool scalar = s.coin(), in = s.coin();
  c.nontrivial(r > 1 && q > 1);
  c.desc << "op " << op << (scalar ? " scalar " : " matrix ") << (in ? "in place " : "") << a.str() << " " << (scalar ? M(1, 1, k) : b).str();
  M e(r, q), tol(r, q), a0 = a, b0 = b;
  auto A = a.v(), B = b.v(), S = st.v();
  bool beta_used = false;
  if (op == 4) { // power
    k = s.range(-3, 4) / 2.0;
    for (int i = 0; i < e.n(); i++)
      e.p[i] = std::pow(a.p[i], k), tol.p[i] = 1e-13 * std::fabs(e.p[i]);
    A.Power_in(k);
    same_mat(a, e, "power", 0, 0, &tol);
    return;
  }
  if (op >= 5) { // apply
    std::function<double(double)> f1 = [k](double x) { return 2 * x + k; };
    std::function<double(double, double)> f2 = [](double x, double y) { return x - 3 * y; };
    int row = s.range(0, r - 1), col = s.range(0, q - 1);
    e = a;
    for (int i = 0; i < r; i++)
      for (int j = 0; j < q; j++)
        if (scalar ? (op == 5 || (op == 6 && i == row) || (op == 7 && j == col)) : true)
          e(i, j) = scalar ? f1(a(i, j)) : f2(a(i, j), b(i, j));
    if (scalar) {
      if (op == 5 && !in) {
        A.Apply(f1, S);
        same_mat(st, e, "apply");
        return;
      }
      op == 5 ? A.Apply_in(f1) : op == 6 ? A.ApplyRow_in(row, f1) : A.ApplyColumn_in(col, f1);
      same_mat(a, e, "apply in place");
    } else if (in) {
      A.Apply_in(B, f2);
      same_mat(a, e, "apply with a second matrix in place");
    } else {
      A.Apply(B, f2, S);
      same_mat(st, e, "apply with a second matrix");
    }
    return;
  }
  for (int i = 0; i < e.n(); i++) {
    double x = a.p[i], y = scalar ? k : b.p[i];
    if (op == 0)
      e.p[i] = x + y;
    else if (op == 1)
      e.p[i] = x - y;
    else if (op == 2) {
      e.p[i] = x * y;
      if (!in && beta != 0) {
        tol.p[i] = 1e-15 * (std::fabs(x * y) + std::fabs(beta * st.p[i]));
        e.p[i] += beta * st.p[i];
        beta_used = true;
      }
    } else
      e.p[i] = x / y;
    tol.p[i] += 1e-15 * std::fabs(e.p[i]);
  }
  if (in) {
    switch (op) {
    case 0: scalar ? A.Add_in(k) : A.Add_in(B); break;
    case 1: scalar ? A.Subtract_in(k) : A.Subtract_in(B); break;
    case 2: scalar ? A.Multiply_in(k) : A.Multiply_in(B); break;
    default: scalar ? A.Divide_in(k) : A.Divide_in(B);
    }
    same_mat(a, e, "result in place", 0, 0, &tol);
  } else {
    if (op == 2 && beta == 0 && s.coin()) // the previous content of the storage must not matter
      for (int i = 0; i < st.n(); i++)
        st.p[i] = NAN;
    switch (op) {
    case 0: scalar ? A.Add(k, S) : A.Add(B, S); break;
    case 1: scalar ? A.Subtract(k, S) : A.Subtract(B, S); break;
    case 2: scalar ? A.Multiply(k, S, beta) : A.Multiply(B, S, beta); break;
    default: scalar ? A.Divide(k, S) : A.Divide(B, S);
    }
    same_mat(st, e, "result", 0, 0, &tol);
    same_mat(a, a0, "first operand changed");
  }
  same_mat(b, b0, "second operand changed");
  if (beta_used)
    c.label("accumulates");
  c.nontrivial(r > 1 && q > 1);
}

FACET(products, "inner dimension and both outer dimensions are at least 2", 40000) {
  int m = s.range(1, 7), k = s.range(1, 7), n = s.range(1, 7);
  if (s.chance(1, 40)) {
    m = s.range(1, 40), k = s.range(1, 70), n = s.range(1, 40);
  }
  double alpha = gen_scalar(s), beta = gen_scalar(s);
  int op = s.range(0, 12);
  bool setLower = s.coin(), upper = s.coin();
  static const char *names[] = {"A B", "A B'", "A' B", "A' B'", "A A'", "A' A", "S B", "A S", "A v", "A' v", "v v", "A D", "D A"};
  c.desc << names[op] << " m=" << m << " k=" << k << " n=" << n << " alpha=" << alpha << " beta=" << beta;
  M a = gen_mat(s, m, k), b = gen_mat(s, k, n), X = a, Y = b;
  M opa, opb, sa, sb; // effective operands, stored operands
  if (op == 1 || op == 3)
    sb = b.t();
  else
    sb = b;
  if (op == 2 || op == 3 || op == 9)
    sa = a.t();
  else
    sa = a;
  opa = a, opb = b;
  if (op == 4)
    opb = a.t();
  if (op == 5) {
    opb = a;
    opa = a.t();
  }
  if (op == 6) {
    k = m;
    opa = sym(gen_mat(s, m, m));
    sa = opa;
    for (int i = 0; i < m; i++) // the other triangle is not used
      for (int j = 0; j < m; j++)
        if (upper ? i > j : i < j)
          sa(i, j) = NAN;
    opb = gen_mat(s, m, n);
    sb = opb;
  }
  if (op == 7) {
    opb = sym(gen_mat(s, k, k));
    sb = opb;
  }
  if (op == 8 || op == 9 || op == 10) {
    opb = gen_mat(s, k, 1);
    sb = opb;
  }
  if (op == 10) {
    opa = gen_mat(s, 1, k);
    sa = opa.t();
  }
  M d;
  if (op == 11) {
    d = gen_mat(s, k, 1);
    opb = M(k, k);
    for (int i = 0; i < k; i++)
      opb(i, i) = d.p[i];
  }
  if (op == 12) {
    d = gen_mat(s, m, 1);
    opb = a;
    opa = M(m, m);
    for (int i = 0; i < m; i++)
      opa(i, i) = d.p[i];
  }
  M err, e = mul(opa, opb, &err);
  M st = gen_mat(s, e.r, e.c);
  if (op == 4 || op == 5)
    st = sym(st);
  if (beta == 0 || op >= 10)
    for (int i = 0; i < st.n(); i++)
      if (op != 4 && op != 5)
        st.p[i] = NAN;
  if (op >= 10)
    alpha = 1, beta = 0;
  M st0 = st;
  for (int i = 0; i < e.n(); i++) {
    e.p[i] *= alpha;
    err.p[i] *= std::fabs(alpha);
    if (beta != 0) {
      e.p[i] += beta * st.p[i];
      err.p[i] += std::fabs(beta * st.p[i]);
    }
    err.p[i] *= 4e-14;
  }
  M sa0 = sa, sb0 = sb;
  auto A = sa.v(), B = sb.v(), S = st.v(), D = d.v();
  bool bad = s.chance(1, 12), sq4 = op == 4 || op == 5;
  if (bad) { // a storage or an operand with a wrong dimension
    int w = s.range(0, 1), dr = s.coin();
    if (w == 0 && (op == 4 || op == 5 || op == 6 || op == 11 || op == 12 || op == 10))
      throw pbt::Discard();
    if (w == 1 && op == 10)
      throw pbt::Discard();
    auto run = [&](const Mx &bb, Mx &ss) {
      switch (op) {
      case 0: A.Dot(bb, ss); break;
      case 1: A.DotTr(bb, ss); break;
      case 2: A.TrDot(bb, ss); break;
      case 3: A.TrDotTr(bb, ss); break;
      case 4: A.Dot_AAt(ss); break;
      case 5: A.Dot_AtA(ss); break;
      case 6: A.SymDot(bb, ss); break;
      case 7: A.DotSym(bb, ss); break;
      case 8: A.DotVector(bb, ss); break;
      case 9: A.tDotVector(bb, ss); break;
      case 11: A.DotDiag(D, ss); break;
      default: D.DiagDot(A, ss);
      }
    };
    bool t = false;
    M wb(sb.r + dr, sb.c + !dr, 1.0), ws(e.r + dr, e.c + !dr, 1.0);
    auto WB = wb.v(), WS = ws.v();
    t = w ? throws([&] { run(B, WS); }) : throws([&] { run(WB, S); });
    CHECK(t, "a " << (w ? "storage" : "second operand") << " with a wrong dimension is accepted");
    c.label("wrong dimension");
    return;
  }
  switch (op) {
  case 0: A.Dot(B, S, alpha, beta); break;
  case 1: A.DotTr(B, S, alpha, beta); break;
  case 2: A.TrDot(B, S, alpha, beta); break;
  case 3: A.TrDotTr(B, S, alpha, beta); break;
  case 4: A.Dot_AAt(S, setLower, alpha, beta); break;
  case 5: A.Dot_AtA(S, setLower, alpha, beta); break;
  case 6: A.SymDot(B, S, upper, alpha, beta); break;
  case 7: A.DotSym(B, S, upper, alpha, beta); break;
  case 8: A.DotVector(B, S, alpha, beta); break;
  case 9: A.tDotVector(B, S, alpha, beta); break;
  case 10: st(0, 0) = A.VectorDotVector(B); break;
  case 11: A.DotDiag(D, S); break;
  default: D.DiagDot(A, S);
  }
  if (sq4 && !setLower)
    for (int i = 0; i < e.r; i++)
      for (int j = 0; j < i; j++)
        e(i, j) = st0(i, j), err(i, j) = 0; // the lower triangle is left as it was
  same_mat(st, e, "product", 0, 1e-300, &err);
  same_mat(sa, sa0, "first operand changed");
  same_mat(sb, sb0, "second operand changed");
  c.label(names[op]);
  c.nontrivial(opa.c > 1 && (op == 10 || (e.r > 1 && (e.c > 1 || op == 8 || op == 9))));
}

FACET(cross_product_nan, "some but not all products of a pair of columns are missing", 10000) {
  int m = s.range(1, 10), k = s.range(1, 5);
  M a = gen_mat(s, m, k);
  for (int i = 0; i < a.n(); i++)
    if (s.chance(1, 5))
      a.p[i] = NAN;
  c.desc << a.str();
  M st(k, k, -7), ct(k, k, -7);
  auto A = a.v(), S = st.v(), C = ct.v();
  A.Dot_AtA_nan(S, C);
  bool some = false;
  for (int i = 0; i < k; i++)
    for (int j = 0; j < k; j++) {
      double x = 0, y = 0;
      int n = 0;
      for (int t = 0; t < m; t++) {
        double v = a(t, i) * a(t, j);
        if (!std::isnan(v))
          x += v, y += std::fabs(v), n++;
      }
      some |= n > 0 && n < m;
      CHECK(ct(i, j) == n, "number of the valid products (" << i << "," << j << ") is " << ct(i, j) << " expected " << n);
      CHECK(close(st(i, j), x, 0, 1e-14 * y), "element (" << i << "," << j << ") is " << st(i, j) << " expected " << x);
    }
  c.nontrivial(some);
}

FACET(kron, "both factors have more than one row and column", 12000) {
  int op = s.range(0, 3), r = s.range(1, 4), q = s.range(1, 4), h = s.range(1, 4);
  M a = gen_mat(s, r, q), b = op == 0 ? gen_mat(s, s.range(1, 4), s.range(1, 4)) : eye(h);
  M x = op == 3 ? a.t() : a, y = b;
  if (op == 2)
    std::swap(x, y);
  M e(x.r * y.r, x.c * y.c);
  for (int i = 0; i < e.r; i++)
    for (int j = 0; j < e.c; j++)
      e(i, j) = x(i / y.r, j / y.c) * y(i % y.r, j % y.c);
  M st(e.r, e.c, -9), wr(e.r + 1, e.c);
  auto A = a.v(), B = b.v(), S = st.v(), W = wr.v();
  c.desc << "op " << op << " " << a.str() << " " << b.str();
  auto run = [&](Mx &S) { op == 0 ? A.Kron(B, S) : op == 1 ? A.KronIden(h, S) : op == 2 ? A.IdenKron(h, S) : A.TrKronIden(h, S); };
  run(S);
  same_mat(st, e, "Kronecker product");
  CHECK(throws([&] { run(W); }), "a storage with a wrong dimension is accepted");
  c.nontrivial(r > 1 && q > 1 && b.r > 1);
}

FACET(transpose, "not square and more than one row and column", 12000) {
  int r = s.range(1, 9), q = s.chance(1, 3) ? r : s.range(1, 9);
  M a = gen_mat(s, r, q), e = a.t(), a0 = a, st(q, r, -9);
  c.desc << a.str();
  auto A = a.v(), S = st.v();
  A.Transpose(S);
  same_mat(st, e, "transpose");
  same_mat(a, a0, "the matrix changed");
  A.Transpose();
  CHECK(A.RowsCount == q && A.ColsCount == r, "dimension after transposing in place");
  std::swap(a.r, a.c);
  same_mat(a, e, "transpose in place");
  A.Transpose();
  std::swap(a.r, a.c);
  same_mat(a, a0, "transposed twice in place");
  M wr(q + 1, r);
  auto W = wr.v();
  CHECK(throws([&] { A.Transpose(W); }), "a storage with a wrong dimension is accepted");
  c.nontrivial(r != q && r > 1 && q > 1);
}

FACET(dimension_errors, "always", 4000) {
  int r = s.range(1, 4), q = s.range(1, 4), dr = s.coin(), op = s.range(0, 7);
  M a = gen_mat(s, r, q), b = gen_mat(s, r, q), o(r + dr, q + !dr, 1.0), st(r, q);
  auto A = a.v(), B = b.v(), O = o.v(), S = st.v();
  M a0 = a;
  c.desc << "op " << op << " " << r << "x" << q << " and " << o.r << "x" << o.c;
  c.nontrivial();
  auto f = [&](const Mx &x, Mx &y) {
    switch (op) {
    case 0: A.Add(x, y); break;
    case 1: A.Subtract(x, y); break;
    case 2: A.Multiply(x, y); break;
    case 3: A.Divide(x, y); break;
    case 4: A.Add(1.0, y); break;
    case 5: A.Subtract(1.0, y); break;
    case 6: A.Multiply(2.0, y); break;
    default: A.Divide(2.0, y);
    }
  };
  CHECK(throws([&] { f(B, O); }), "a storage with a wrong dimension is accepted");
  if (op < 4) {
    CHECK(throws([&] { f(O, S); }), "a second operand with a wrong dimension is accepted");
    if (o.r * o.c != r * q)
      CHECK(throws([&] { op == 0 ? A.Add_in(O) : op == 1 ? A.Subtract_in(O) : op == 2 ? A.Multiply_in(O) : A.Divide_in(O); }), "a second operand with a wrong dimension is accepted (in place)");
    same_mat(a, a0, "the matrix changed");
  }
}
