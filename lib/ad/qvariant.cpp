#include <valijson/adapters/qvariant_adapter.hpp>
#include "../adimpl.hpp"
typedef QVariant D; typedef valijson::adapters::QtVariantAdapter A;
static QString qs(const std::string &s) { return QString::fromUtf8(s.data(), (qsizetype)s.size()); }
static D mkv(const J &j) {
    switch (j.t) {
    case J::Null: return QVariant::fromValue(nullptr); case J::Bool: return D(j.b); case J::Int: return D((qlonglong)j.i); case J::Dbl: return D(j.d); case J::Str: return D(qs(j.s));
    case J::Arr: { QVariantList a; for (auto &x : j.a) a.append(mkv(x)); return a; }
    default: { QVariantMap o; for (auto &m : j.o) o.insert(qs(m.first), mkv(m.second)); return o; }
    }
}
static void put(D &d, const J &j) { d = mkv(j); }
static J take(const D &v) {
    switch (v.typeId()) {
    case QMetaType::Nullptr: case QMetaType::UnknownType: return J(); case QMetaType::Bool: return J(v.toBool());
    case QMetaType::LongLong: return J((long long)v.toLongLong()); case QMetaType::Double: return J(v.toDouble());
    case QMetaType::ULongLong: { auto u = v.toULongLong(); return u > INT64_MAX ? J((double)u) : J((long long)u); }
    case QMetaType::QString: return J(v.toString().toUtf8().toStdString());
    case QMetaType::QVariantList: { J r = J::arr(); for (const D &x : v.toList()) r.push(take(x)); return r; }
    default: { J r = J::obj(); QVariantMap o = v.toMap(); for (auto it = o.begin(); it != o.end(); ++it) r.o.emplace_back(it.key().toUtf8().toStdString(), take(it.value())); return r; }
    }
}
static AdLib mk() {
    AdLib l = adimpl::make<A, D>("qvariant", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, D>>(true, put, take); h->doc = D((qulonglong)u); h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
