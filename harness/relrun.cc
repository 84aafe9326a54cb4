#include "relrun.h"

void noteProg(Ctx &c, const Prog &p, const Bytes &code) {
  if (c.wantDesc) {
    c.note("program: " + show(p));
    c.note("code: " + hexOf(code));
  }
}

void RelRun::decode(const Prog &p, Src *s) {
  Bytes code;
  bool lastEoe = true;
  if (s != nullptr) {
    lastEoe = !s->chance(40);
  }
  encProg(code, p, s, lastEoe);
  noteProg(c, p, code);
  c.mixHash(code);
  mustDecodeRel(c, r.r, code);
  m = RelModel(p);
  failed = false;
}

void RelRun::decodeBad(const Bytes &b) {
  CodeBuf buf(b);
  sut::Err e;
  sut::relDecode(r.r, buf.p, buf.n, e);
  if (c.wantDesc) {
    c.note("decode, to be refused: " + hexOf(b));
  }
  if (!e) {
    c.fail("a broken relational program is accepted: " + hexOf(b));
  }
  if (e.ex == sut::Ex::OTHER) {
    c.fail("something not derived from std::exception was thrown by decoding");
  }
  failed = true;
}

void RelRun::put(const Row &row) {
  std::vector<Row> out;
  St st = m.put(row, 0, out);
  if (c.wantDesc && puts < 60) {
    c.note("put " + show(row));
  }
  c.mixHash(row);
  ++puts;
  sut::Tup *t = sut::mkTuple(row);
  sut::Err e;
  Tuple back{sut::relPut(r.r, t, e)};
  if (e.ex == sut::Ex::OTHER) {
    c.fail("something not derived from std::exception was thrown by Put");
  }
  if (st == St::ANY) {
    throw Abandon();
  }
  if (st == St::ERR) {
    if (!e) {
      c.fail("Put must raise an error for row " + show(row) +
             (back.t != nullptr ? ", it returned " + show(sut::readTuple(back.t)) : ", it returned nothing"));
    }
    ++errors;
    return;
  }
  if (e) {
    c.fail("Put raised an error for row " + show(row) + ": " + e.what);
  }
  if (out.empty()) {
    if (back.t != nullptr) {
      c.fail(fmt("Put #%llu of ", (unsigned long long)puts) + show(row) + " must return nothing, it returned " +
             show(sut::readTuple(back.t)));
    }
    return;
  }
  ++returned;
  if (back.t == nullptr) {
    c.fail(fmt("Put #%llu of ", (unsigned long long)puts) + show(row) + " returned nothing, expected " + show(out[0]));
  }
  Row got = sut::readTuple(back.t, &out[0]);
  if (!sameRow(out[0], got)) {
    c.fail(fmt("Put #%llu of ", (unsigned long long)puts) + show(row) + " returned " + show(got) + ", expected " +
           show(out[0]));
  }
}

void RelRun::drain() {
  std::vector<Row> exp, got;
  St st = m.drain(exp);
  ++drains;
  c.note("fetch all");
  std::string err;
  for (u64 k = 0;; ++k) {
    sut::Err e;
    Tuple t{sut::relGet(r.r, e)};
    if (e.ex == sut::Ex::OTHER) {
      c.fail("something not derived from std::exception was thrown by Get");
    }
    if (e) {
      err = e.what;
      if (st == St::ANY && k < exp.size() + 100) {
        continue;
      }
      break;
    }
    if (t.t == nullptr) {
      break;
    }
    got.push_back(sut::readTuple(t.t, exp.empty() ? nullptr : &exp[0]));
    if (st == St::OK && got.size() > exp.size()) {
      break;
    }
    if (got.size() > 1000000) {
      c.fail("fetching does not end");
    }
  }
  if (st != St::OK) {
    throw Abandon();
  }
  if (!err.empty()) {
    c.fail("Get raised an error: " + err);
  }
  fetched += got.size();
  std::string d = diffMultiset(exp, got);
  if (!d.empty()) {
    c.fail("rows fetched differ: " + d);
  }
}

void RelRun::expectNothing(int times) {
  for (int k = 0; k < times; ++k) {
    sut::Err e;
    Tuple t{sut::relGet(r.r, e)};
    if (e) {
      c.fail("Get raised an error with nothing to fetch: " + e.what);
    }
    if (t.t != nullptr) {
      c.fail("Get returned " + show(sut::readTuple(t.t)) + " where nothing is to be fetched");
    }
  }
}

u32 rowCount(Src &s, u32 big) {
  u8 m = s.byte();
  u32 n;
  if (m < 120) {
    n = s.below(10);
  } else if (m < 215) {
    n = 5 + s.below(40);
  } else if (m < 250) {
    n = 40 + s.below(300);
  } else {
    n = bigSize(s, std::min(big, 60u), std::max(big, 60u));
  }
  return n > big ? big : n;
}

Bytes brokenProg(Src &s, const Prog &base) {
  Bytes b;
  encProg(b, base, nullptr);
  switch (s.below(8)) {
  case 0:
    b.push_back(0x70 + (u8)(s.chance(128) ? 0 : 5 + s.below(8)));
    break;
  case 1:
    b.push_back(0x71);
    b.push_back(0x16);
    break;
  case 2:
    b.push_back(0x72);
    b.push_back(0x17);
    b.push_back(0x03);
    b.push_back('x');
    b.push_back(0x17);
    b.push_back(0x03);
    b.push_back('a');
    break;
  case 3:
    b.push_back(0x73);
    b.push_back(0x62);
    break;
  case 4:  // an unsupported aggregation after good ones
    b.insert(b.end(), {0x73, 0x61, 0x01, 0x00, 0x03, 0x10, 0x21, 0x00, 0x23, 0x00});
    break;
  case 5:
    b.insert(b.end(), {0x74, 0x05, 0x10, 0x10});
    break;
  case 6:
    b.insert(b.end(), {0x73, 0x61, 0x04, 0x00, 0x01});
    break;
  default:
    b.insert(b.end(), {0x71, 0x31, 0x00, 0x11, 0x05, 0x97, 0x01, 0x00});
  }
  return b;
}
