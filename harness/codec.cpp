// OPC UA binary codec against an independent reference encoder. Properties U01..U03.
#include "vh.hpp"
#include "OpcUaBinaryCodec.hpp"
#include <atomic>
#include <new>
#include <tuple>

using namespace app::ua;
using vh::Rng;
using vh::Bytes;

// ---- allocation meter (driver thread only) ----
#if !defined(PART) || PART == 0
thread_local bool meterOn = false;
thread_local size_t meterTotal = 0, meterMax = 0;
void* operator new(size_t n)
{
    if (meterOn) { meterTotal += n; if (n > meterMax) meterMax = n; }
    if (n > (size_t)400 << 20) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

#else
extern thread_local bool meterOn;
extern thread_local size_t meterTotal, meterMax;
#endif

namespace
{
bool is(char const* p) { return vh::ctx.prop == p; }

// ---- field lists in the order of the OPC UA specification ----
// f(v, x): calls v(field) for every field of x
template <class V, class X> void fields(V&& v, X& x);
#define FIELDS(T, ...) template <class V> void fieldsOf(V& v, T& x) { auto l = [&](auto&... a) { (v(a), ...); }; l(__VA_ARGS__); }
FIELDS(Guid, x.data1, x.data2, x.data3, x.data4)
FIELDS(QualifiedName, x.namespaceIndex, x.name)
FIELDS(MessageHeader, x.messageType, x.isFinal, x.messageSize)
FIELDS(UaMessageHeader, x.messageType, x.isFinal, x.messageSize, x.secureChannelId)
FIELDS(HelloMessage, x.protocolVersion, x.receiveBufferSize, x.sendBufferSize, x.maxMessageSize, x.maxChunkCount, x.endpointUrl)
FIELDS(AcknowledgeMessage, x.protocolVersion, x.receiveBufferSize, x.sendBufferSize, x.maxMessageSize, x.maxChunkCount)
FIELDS(ErrorMessage, x.error, x.reason)
FIELDS(ReverseHelloMessage, x.serverUri, x.endpointUrl)
FIELDS(UaSecurityHeader, x.securityPolicyUri, x.senderCertificate, x.receiverCertificateThumbprint)
FIELDS(UaSecurityTokenHeader, x.tokenId)
FIELDS(UaSequenceHeader, x.sequenceNumber, x.requestId)
FIELDS(UaRequestHeader, x.authentificationToken, x.timestamp, x.requestHandle, x.returnDignostics, x.auditEntityId, x.timeoutHint, x.additionalHeader)
FIELDS(UaResponseHeader, x.timestamp, x.requestHandle, x.serviceResult, x.serviceDiagnostics, x.stringTable, x.additionalHeader)
FIELDS(UaOpenSecureChannelReq, x.requestHdr, x.clientProtocolVer, x.securityTokenRequestType, x.securityMode, x.clientNonce, x.requestLifetime)
FIELDS(UaChannelSecurityToken, x.secureChannelId, x.tokenId, x.createdAt, x.revisedLifetime)
FIELDS(UaOpenSecureChannelRsp, x.responseHdr, x.serverProtocolVer, x.securityToken, x.serverNonce)
FIELDS(UaCloseSecureChannelReq, x.requestHdr)
FIELDS(UaCloseSecureChannelRsp, x.responseHdr)
FIELDS(UaGetEndpointsReq, x.requestHdr, x.endpointUrl, x.localeIds, x.profileUris)
FIELDS(UaUserTokenPolicy, x.policyId, x.tokenType, x.issuedTokenType, x.issuerEndpointUrl, x.securityPolicyUri)
FIELDS(UaApplicationDescription, x.applicationUri, x.productUri, x.applicationName, x.applicationType, x.gatewayServerUri, x.discoveryProfileUri, x.discoveryUrls)
FIELDS(UaEndpointDescription, x.endpointUrl, x.server, x.serverCertificate, x.securityMode, x.securityPolicyUri, x.userIdentityTokens, x.transportProfileUri, x.securityLevel)
FIELDS(UaGetEndpointsRsp, x.responseHdr, x.endpointDescription)
FIELDS(UaSignatureData, x.algorithm, x.signature)
FIELDS(UaCreateSessionReq, x.requestHdr, x.clientDescription, x.serverUri, x.endpointUrl, x.sessionName, x.clientNonce, x.clientCertificate, x.requestedSessionTimeout, x.maxResponseMessageSize)
FIELDS(UaCreateSessionRsp, x.responseHdr, x.sessionId, x.authenticationToken, x.revisedSessionTimeout, x.serverNonce, x.serverCertificate, x.serverEndpoints, x.signedSoftwareCertificate, x.serverSignature, x.maxRequestMessageSize)
FIELDS(UaCloseSessionReq, x.requestHdr, x.deleteSubscriptions)
FIELDS(UaCloseSessionRsp, x.responseHdr)
FIELDS(UaActivateSessionReq, x.requestHdr, x.clientSignature, x.clientSoftwareCertificates, x.localeIds, x.userIdentityToken, x.userTokenSignature)
FIELDS(UaActivateSessionRsp, x.responseHdr, x.serverNonce, x.results, x.diagnosticInfos)
FIELDS(ReadValueId, x.nodeId, x.attributeId, x.indexRange, x.dataEncoding)
FIELDS(UaReadReq, x.requestHdr, x.maxAge, x.timestampsToReturn, x.nodesToRead)
FIELDS(UaReadRsp, x.responseHdr, x.results, x.diagnosticInfos)
template <class V, class D, DataTypeId I> void fieldsOf(V& v, UaMsgCont<D, I>& x) { v(x.eNodeId); v(x.msg); }
template <class V, class... T> void fieldsOf(V& v, std::tuple<T...>& x) { std::apply([&](auto&... a) { (v(a), ...); }, x); }

// ---- generator ----
struct Gen
{
    Rng& g;
    int budget;        // rough number of bytes this value may take
    int depth = 0;
    Gen(Rng& r, int b) : g(r), budget(b) {}

    template <DataTypeId I, class T> void operator()(NumericType<I, T>& x)
    {
        budget -= sizeof(T);
        if constexpr (std::is_same_v<T, bool>) x = g.chance(50);
        else if constexpr (std::is_floating_point_v<T>)
        {
            T v;
            uint64_t bits = g.next();
            switch (g.below(6))
            {
            case 0: v = 0; break;
            case 1: v = -1.5; break;
            case 2: v = std::numeric_limits<T>::infinity(); break;
            case 3: v = std::numeric_limits<T>::denorm_min(); break;
            default: memcpy(&v, &bits, sizeof v); if (v != v) v = 3; break;
            }
            x = v;
        }
        else
        {
            uint64_t v = 0;
            switch (g.below(7))
            {
            case 0: v = 0; break;
            case 1: v = ~0ull; break;
            case 2: v = 1ull << g.below(64); break;
            case 3: v = (1ull << g.below(64)) - 1; break;
            case 4: v = g.below(600); break;
            default: v = g.next(); break;
            }
            x = (T)v;
        }
    }
    std::string str()
    {
        size_t n;
        switch (g.below(8))
        {
        case 0: case 1: n = 0; break;
        case 2: n = 1; break;
        case 3: n = g.below(300); break;
        case 4: n = g.pick({127, 128, 255, 256, 257}); break;
        default: n = g.below(16); break;
        }
        if ((int)n > budget) n = budget > 0 ? g.below(std::min(budget, 8)) : 0;
        budget -= (int)n + 4;
        std::string s;
        for (size_t i = 0; i < n; ++i) s.push_back((char)(g.chance(20) ? g.next() : 'a' + g.below(26)));
        return s;
    }
    template <DataTypeId I> void operator()(StringType<I>& x) { x.val = str(); }
    void operator()(String& x) { x.val = str(); }
    void operator()(ByteString& x) { x.val = str(); }
    template <class T, size_t N> void operator()(std::array<T, N>& x) { for (auto& e : x) (*this)(e); }
    template <class T> void operator()(std::vector<T>& x)
    {
        size_t n = g.chance(30) ? 0 : g.chance(10) ? g.below(40) : g.below(4);
        x.clear();
        budget -= 4;
        while (n-- && budget > 0) { x.emplace_back(); (*this)(x.back()); }
    }
    template <class T> void opt(Opt<T>& o, unsigned pct = 50) { o.reset(); if (g.chance(pct)) { o.emplace(); (*this)(*o); } }
    void operator()(NodeId& x)
    {
        switch (g.below(4)) { case 0: x.namespaceIndex = 0; break; case 1: x.namespaceIndex = g.below(256); break; default: x.namespaceIndex = g.pick({1, 255, 256, 257, 65535}); }
        switch (g.below(8))
        {
        case 0: { String s; (*this)(s); x.value.emplace<String>() = s; break; }
        case 1: { Guid s; (*this)(s); x.value.emplace<Guid>() = s; break; }
        case 2: { Opaque s; (*this)(s); x.value.emplace<Opaque>() = s; break; }
        default:
        {
            uint32_t v;
            switch (g.below(4)) { case 0: v = g.below(256); break; case 1: v = g.below(65536); break; case 2: v = g.pick({255u, 256u, 65535u, 65536u, 0xffffffffu, 0u}); break; default: v = g.next(); }
            x.value.emplace<UInt32>() = v;
        }
        }
        budget -= 7;
    }
    void operator()(DiagnosticInfo& x)
    {
        --budget;
        opt(x.symbolicId); opt(x.namespaceUri); opt(x.locale); opt(x.localizedText); opt(x.additionalInfo); opt(x.innerStatusCode);
        x.innerDiagnosticInfo.reset();
        if (depth < 6 && budget > 0 && g.chance(30)) { ++depth; x.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(); (*this)(*x.innerDiagnosticInfo); --depth; }
    }
    void operator()(LocalizedText& x) { --budget; opt(x.locale); opt(x.text); }
    void operator()(ExpandedNodeId& x) { (*this)(x.nodeId); opt(x.namespaceUri); opt(x.serverIndex); }
    void operator()(ExtensionObject& x) { (*this)(x.nodeId); opt(x.byteString); --budget; }
    void operator()(DataValue& x)
    {
        (*this)(x.value);
        opt(x.status); opt(x.sourceTimestampt); opt(x.sourcePicoSeconds); opt(x.serverTimeStampt); opt(x.serverPicoSeconds);
    }
    template <size_t I> void alt(Variant& x) { x.value = std::make_unique<Variant::Value>(std::in_place_index<I>); (*this)(std::get<I>(*x.value)); }
    template <size_t... I> void alts(Variant& x, size_t k, std::index_sequence<I...>) { ((I == k ? (alt<I>(x), 0) : 0), ...); }
    void operator()(Variant& x)
    {
        constexpr size_t N = std::variant_size_v<Variant::Value>;
        x.value.reset();
        x.arrayDimensions.reset();
        --budget;
        if (g.chance(10)) return;
        size_t k = g.below(N);
        alts(x, k, std::make_index_sequence<N>{});
        if (k >= 22 && g.chance(30)) { x.arrayDimensions.emplace(); (*this)(*x.arrayDimensions); }
    }
    template <class T> auto operator()(T& x) -> decltype(fieldsOf(*this, x)) { fieldsOf(*this, x); }
};

// ---- reference encoder ----
struct Ref
{
    Bytes out;
    Rng* alt = nullptr;        // choose among the permitted encodings
    int emptyStr = -1, emptyArr = 0;
    uint64_t lens = 0;
    std::vector<size_t> lenPos; // where length fields are (for hostile mutations)
    std::vector<size_t> nodePos, varPos; // where the form of a node id and the type of a variant are
    void b(uint64_t v) { out.push_back((uint8_t)v); }
    void le(uint64_t v, unsigned n) { while (n--) { b(v); v >>= 8; } }
    bool coin() { return alt && alt->chance(50); }
    template <DataTypeId I, class T> void operator()(NumericType<I, T>& x)
    {
        if constexpr (std::is_same_v<T, bool>) { T v = x; b(v ? (coin() ? 1 + alt->below(255) : 1) : 0); }
        else if constexpr (std::is_floating_point_v<T>) { T v = x; uint64_t r = 0; memcpy(&r, &v, sizeof v); le(r, sizeof v); }
        else { T v = x; le((uint64_t)v, sizeof v); }
    }
    void str(std::string const& s)
    {
        lenPos.push_back(out.size());
        if (s.empty()) { int v = alt ? (coin() ? -1 : 0) : emptyStr; le((uint64_t)(int64_t)v, 4); return; }
        le(s.size(), 4);
        for (auto c : s) b((uint8_t)c);
    }
    template <DataTypeId I> void operator()(StringType<I>& x) { str(x.val); }
    void operator()(String& x) { str(x.val); }
    void operator()(ByteString& x) { str(x.val); }
    template <class T, size_t N> void operator()(std::array<T, N>& x) { for (auto& e : x) (*this)(e); }
    template <class T> void operator()(std::vector<T>& x)
    {
        lenPos.push_back(out.size());
        if (x.empty()) { int v = alt ? (coin() ? -1 : 0) : emptyArr; le((uint64_t)(int64_t)v, 4); return; }
        le(x.size(), 4);
        for (auto& e : x) (*this)(e);
    }
    void node(NodeId& x, unsigned flags)
    {
        nodePos.push_back(out.size());
        unsigned ns = x.namespaceIndex;
        if (auto* n = std::get_if<UInt32>(&x.value))
        {
            uint32_t id = *n;
            int form = ns == 0 && id <= 0xff ? 0 : ns <= 0xff && id <= 0xffff ? 1 : 2;
            if (alt) form += alt->below(3 - form);
            b(form | flags);
            if (form == 0) b(id);
            else if (form == 1) { b(ns); le(id, 2); }
            else { le(ns, 2); le(id, 4); }
        }
        else if (auto* s = std::get_if<String>(&x.value)) { b(3 | flags); le(ns, 2); str(s->val); }
        else if (auto* s = std::get_if<Guid>(&x.value)) { b(4 | flags); le(ns, 2); (*this)(*s); }
        else { b(5 | flags); le(ns, 2); str(std::get<Opaque>(x.value).val); }
    }
    void operator()(NodeId& x) { node(x, 0); }
    void operator()(ExpandedNodeId& x)
    {
        bool u = x.namespaceUri && (x.namespaceUri->size() || coin());
        node(x.nodeId, (u ? 0x80 : 0) | (x.serverIndex ? 0x40 : 0));
        if (u) (*this)(*x.namespaceUri);
        if (x.serverIndex) (*this)(*x.serverIndex);
    }
    void operator()(DiagnosticInfo& x)
    {
        b((x.symbolicId ? 1 : 0) | (x.namespaceUri ? 2 : 0) | (x.localizedText ? 4 : 0) | (x.locale ? 8 : 0)
          | (x.additionalInfo ? 0x10 : 0) | (x.innerStatusCode ? 0x20 : 0) | (x.innerDiagnosticInfo ? 0x40 : 0));
        if (x.symbolicId) (*this)(*x.symbolicId);
        if (x.namespaceUri) (*this)(*x.namespaceUri);
        if (x.locale) (*this)(*x.locale);
        if (x.localizedText) (*this)(*x.localizedText);
        if (x.additionalInfo) (*this)(*x.additionalInfo);
        if (x.innerStatusCode) (*this)(*x.innerStatusCode);
        if (x.innerDiagnosticInfo) (*this)(*x.innerDiagnosticInfo);
    }
    void operator()(LocalizedText& x)
    {
        bool l = x.locale && (x.locale->size() || coin()), t = x.text && (x.text->size() || coin());
        b((l ? 1 : 0) | (t ? 2 : 0));
        if (l) (*this)(*x.locale);
        if (t) (*this)(*x.text);
    }
    void operator()(ExtensionObject& x)
    {
        bool h = x.byteString && (x.byteString->size() || coin());
        node(x.nodeId, 0);
        b(h ? (coin() ? 2 : 1) : 0);
        if (h) (*this)(*x.byteString);
    }
    void operator()(DataValue& x)
    {
        bool v = x.value.value || coin();
        b((v ? 1 : 0) | (x.status ? 2 : 0) | (x.sourceTimestampt ? 4 : 0) | (x.serverTimeStampt ? 8 : 0)
          | (x.sourcePicoSeconds ? 0x10 : 0) | (x.serverPicoSeconds ? 0x20 : 0));
        if (v) (*this)(x.value);
        if (x.status) (*this)(*x.status);
        if (x.sourceTimestampt) (*this)(*x.sourceTimestampt);
        if (x.sourcePicoSeconds) (*this)(*x.sourcePicoSeconds);
        if (x.serverTimeStampt) (*this)(*x.serverTimeStampt);
        if (x.serverPicoSeconds) (*this)(*x.serverPicoSeconds);
    }
    void operator()(Variant& x)
    {
        if (!x.value) { b(0); return; }
        size_t k = x.value->index();
        bool arr = k >= 22;
        varPos.push_back(out.size());
        b((arr ? k - 21 : k + 1) | (arr ? 0x80 : 0) | (x.arrayDimensions ? 0x40 : 0));
        std::visit([&](auto& v) { (*this)(v); }, *x.value);
        if (x.arrayDimensions) (*this)(*x.arrayDimensions);
    }
    template <class T> auto operator()(T& x) -> decltype(fieldsOf(*this, x)) { fieldsOf(*this, x); }
};

// ---- canonical dump: two values are equal when their dumps are ----
struct Dump
{
    std::string o;
    bool flt = false;
    void num(uint64_t v) { o += std::to_string(v); o += ' '; }
    template <DataTypeId I, class T> void operator()(NumericType<I, T>& x)
    {
        if (std::is_floating_point_v<T>) flt = true;
        T v = x; uint64_t r = 0;
        if constexpr (std::is_same_v<T, bool>) r = v; else memcpy(&r, &v, sizeof v);
        num(r);
    }
    void str(std::string const& s) { o += 's' + std::to_string(s.size()) + ':' + s + ' '; }
    template <DataTypeId I> void operator()(StringType<I>& x) { str(x.val); }
    void operator()(String& x) { str(x.val); }
    void operator()(ByteString& x) { str(x.val); }
    template <class T, size_t N> void operator()(std::array<T, N>& x) { for (auto& e : x) (*this)(e); }
    template <class T> void operator()(std::vector<T>& x) { o += '['; for (auto& e : x) (*this)(e); o += ']'; }
    void operator()(NodeId& x) { o += 'N'; num(x.namespaceIndex); num(x.value.index()); std::visit([&](auto& v) { (*this)(v); }, x.value); }
    template <class T> void opt(Opt<T>& x) { if (x) { o += '?'; (*this)(*x); } else o += '-'; }
    template <class T> void optStr(Opt<T>& x) { if (x && x->size()) { o += '?'; str(x->val); } else o += '-'; } // absent and empty mean the same
    void operator()(DiagnosticInfo& x)
    {
        o += 'D';
        opt(x.symbolicId); opt(x.namespaceUri); opt(x.locale); opt(x.localizedText); opt(x.additionalInfo); opt(x.innerStatusCode);
        if (x.innerDiagnosticInfo) (*this)(*x.innerDiagnosticInfo); else o += '-';
    }
    void operator()(LocalizedText& x) { o += 'L'; optStr(x.locale); optStr(x.text); }
    void operator()(ExpandedNodeId& x) { o += 'E'; (*this)(x.nodeId); optStr(x.namespaceUri); opt(x.serverIndex); }
    void operator()(ExtensionObject& x) { o += 'X'; (*this)(x.nodeId); optStr(x.byteString); }
    void operator()(DataValue& x)
    {
        o += 'V'; (*this)(x.value);
        opt(x.status); opt(x.sourceTimestampt); opt(x.sourcePicoSeconds); opt(x.serverTimeStampt); opt(x.serverPicoSeconds);
    }
    void operator()(Variant& x)
    {
        o += 'A';
        if (!x.value) { o += '-'; return; }
        num(x.value->index());
        std::visit([&](auto& v) { (*this)(v); }, *x.value);
        opt(x.arrayDimensions);
    }
    template <class T> auto operator()(T& x) -> decltype(fieldsOf(*this, x)) { fieldsOf(*this, x); }
};
template <class T> std::string dump(T& x) { Dump d; d(x); return d.o; }
std::string shorten(std::string const& s) { std::string r; for (unsigned char c : s.substr(0, 160)) { if (c >= 0x20 && c < 0x7f) r += c; else r += '.'; } return r; }

// values whose own operator== is part of the interface
template <class T> concept Eq = requires (T const& a, T const& b) { { a == b } -> std::convertible_to<bool>; };
template <class T> bool selfEqual(T const& a, T const& b) { if constexpr (Eq<T> && !requires { std::tuple_size<T>::value; }) return a == b; else return true; }
template <class T> constexpr bool HasEq = Eq<T> && !requires { std::tuple_size<T>::value; };
template <class T> bool floatInside(T& x) { Dump d; d(x); return d.flt; } // NaN and -0 make operator== differ from sameness

constexpr unsigned CAP = 4096; // capacity of one packet, taken from the buffer itself below

struct Buf
{
    std::unique_ptr<OpcUaSduBuffer> b{new OpcUaSduBuffer}; // on the heap: overruns hit the red zone
    OpcUaBinaryCodec c{*b};
    unsigned cap;
    explicit Buf(int background = 0) // everything that is not written later holds the background
    {
        cap = b->capacity();
        for (unsigned i = 0; i < cap; ++i) b->write((uint8_t)(background + i * (background ? 7 : 0)));
        b->reset();
    }
    void put(Bytes const& v) { for (auto x : v) b->write(x); }
};

enum class Res { ok, failed };
template <class T> Res decode(Buf& b, T& x, std::string& why)
{
    try { b.c >> x; return Res::ok; }
    catch (std::exception const& e) { why = e.what(); return Res::failed; }
    catch (vh::StopCase&) { throw; }
    catch (...) { vh::viol("foreign-exception", "decoding failed with something that is not an ordinary exception"); throw vh::StopCase(); }
}
template <class T> Res encode(Buf& b, T const& x, std::string& why)
{
    try { b.c << x; return Res::ok; }
    catch (std::exception const& e) { why = e.what(); return Res::failed; }
    catch (...) { vh::viol("foreign-exception", "encoding failed with something that is not an ordinary exception"); throw vh::StopCase(); }
}

// arrays of SignedSoftwareCertificate are modelled as byte arrays: only the empty one conforms
template <class T> void conform(T&) {}
void conform(UaCreateSessionRsp& x) { x.signedSoftwareCertificate.clear(); }
void conform(UaActivateSessionReq& x) { x.clientSoftwareCertificates.clear(); }
template <class D, DataTypeId I> void conform(UaMsgCont<D, I>& x) { conform(x.msg); }

template <class T> struct Case
{
    static void roundTrip(Rng& g, char const* name)
    {
        unsigned const room = 3600;
        Buf b(g.below(256));
        // something else may be in front, read or unread
        unsigned pre = g.chance(60) ? 0 : g.below(40);
        Bytes prefix;
        for (unsigned i = 0; i < pre; ++i) prefix.push_back(g.next());
        b.put(prefix);
        bool readFirst = g.chance(50);
        if (readFirst) for (unsigned i = 0; i < pre; ++i) VCHECK(b.b->read() == prefix[i], "prefix", "byte %u of a value in front changed", i);
        unsigned k = 1 + g.below(4);
        std::vector<std::unique_ptr<T>> vals;
        std::vector<Bytes> refs;
        size_t total = pre;
        for (unsigned i = 0; i < k; ++i)
        {
            auto v = std::make_unique<T>();
            Gen gen(g, g.chance(15) ? 1800 : 250);
            gen(*v);
            Ref r; r(*v);
            if (total + r.out.size() > room) break;
            total += r.out.size();
            std::string why;
            auto before = b.b->end();
            if (encode(b, *v, why) != Res::ok) { VCHECK(false, vh::fmt("encode-failed:%s", name), "%s (%zu bytes): %s; %s", name, r.out.size(), why.c_str(), shorten(dump(*v)).c_str()); throw vh::StopCase(); }
            Bytes got(before, b.b->end());
            vh::count("values_encoded");
            vh::count("bytes_encoded", got.size());
            (void)got;
            vals.push_back(std::move(v));
            refs.push_back(r.out);
        }
        if (!readFirst) for (unsigned i = 0; i < pre; ++i) { auto x = b.b->read(); VCHECK(x == prefix[i], "prefix-changed", "writing a %s changed byte %u in front of it: %02x -> %02x", name, i, prefix[i], x); }
        T last; std::string lastDump;
        for (unsigned i = 0; i < vals.size(); ++i)
        {
            T target;
            bool dirty = g.chance(60);
            if (dirty) { Gen gen(g, 200); gen(target); }
            auto before = b.b->begin();
            std::string why;
            auto r = decode(b, target, why);
            vh::count("values_decoded");
            if (r != Res::ok) { VCHECK(false, vh::fmt("decode-failed:%s", name), "own encoding of %s is not decoded: %s; %s", name, why.c_str(), shorten(dump(*vals[i])).c_str()); throw vh::StopCase(); }
            auto want = dump(*vals[i]), have = dump(target);
            VCHECK(want == have, vh::fmt("roundtrip:%s", name), "%s #%u%s: %s became %s", name, i, dirty ? " (target in use before)" : "", shorten(want).c_str(), shorten(have).c_str());
            if (want == have && !floatInside(target))
            {
                // two decodings of the same bytes are equal, decodings of different values are not
                Buf b2; b2.put(Bytes(before, b.b->begin()));
                T again;
                if (decode(b2, again, why) == Res::ok)
                {
                    VCHECK(selfEqual(target, again), vh::fmt("equality:%s", name), "%s: two decodings of the same bytes are not equal: %s", name, shorten(want).c_str());
                    if (lastDump.size() && lastDump != have) VCHECK(!HasEq<T> || !selfEqual(last, target), vh::fmt("inequality:%s", name), "%s: different values are equal: %s and %s", name, shorten(lastDump).c_str(), shorten(have).c_str());
                    vh::count("values_compared");
                    last = std::move(again); lastDump = have;
                }
            }
            VCHECK((size_t)(b.b->begin() - before) == refs[i].size(), vh::fmt("consumed:%s", name), "%s: %zu bytes written, %zd consumed", name, refs[i].size(), b.b->begin() - before);
            vh::distinct("values", vh::hashStr(name + want));
            if (want != have) throw vh::StopCase();
        }
        VCHECK(b.b->begin() == b.b->end(), vh::fmt("left-over:%s", name), "%s: bytes left after reading all values", name);
    }
    static void spec(Rng& g, char const* name)
    {
        T v;
        Gen gen(g, g.chance(15) ? 1500 : 300);
        gen(v);
        conform(v);
        Ref best; best(v);
        if (best.out.size() > 3800) return;
        std::string why;
        {
            Buf b(g.below(256));
            unsigned pre = g.chance(50) ? 0 : g.below(40);
            for (unsigned i = 0; i < pre; ++i) b.b->write(0);
            auto start = b.b->end();
            if (encode(b, v, why) != Res::ok) { VCHECK(false, vh::fmt("encode-failed:%s", name), "%s: %s; %s", name, why.c_str(), shorten(dump(v)).c_str()); throw vh::StopCase(); }
            Bytes got(start, b.b->end());
            bool ok = got == best.out;
            for (int es : {-1, 0}) for (int ea : {-1, 0}) { if (ok) break; Ref r; r.emptyStr = es; r.emptyArr = ea; r(v); ok = got == r.out; }
            vh::count("encodings_compared");
            VCHECK(ok, vh::fmt("encoding:%s", name), "%s %s: got %s want %s", name, shorten(dump(v)).c_str(), vh::hex(got).c_str(), vh::hex(best.out).c_str());
            for (unsigned i = 0; i < pre; ++i) VCHECK(b.b->begin()[i] == 0, "prefix-changed", "writing a %s changed a byte in front of it", name);
            vh::distinct("encodings", vh::hashStr(std::string(got.begin(), got.end())));
        }
        // every permitted encoding is accepted
        for (int n = 0; n < 2; ++n)
        {
            Ref r; r.alt = n ? &g : nullptr; r(v);
            if (r.out.size() > 4000) continue;
            Buf b(g.below(256));
            unsigned pre = g.chance(50) ? 0 : g.below(40);
            for (unsigned i = 0; i < pre; ++i) b.b->write(0x5a);
            for (unsigned i = 0; i < pre; ++i) b.b->read();
            b.put(r.out);
            T t;
            bool dirty = g.chance(50);
            if (dirty) { Gen gg(g, 200); gg(t); }
            auto start = b.b->begin();
            if (decode(b, t, why) != Res::ok) { VCHECK(false, vh::fmt("valid-rejected:%s", name), "%s: %s rejected: %s", name, vh::hex(r.out).c_str(), why.c_str()); throw vh::StopCase(); }
            vh::count(n ? "alternative_encodings" : "canonical_encodings");
            auto want = dump(v), have = dump(t);
            VCHECK(want == have, vh::fmt("decoding:%s", name), "%s: %s read as %s, is %s", name, vh::hex(r.out).c_str(), shorten(have).c_str(), shorten(want).c_str());
            VCHECK((size_t)(b.b->begin() - start) == r.out.size(), vh::fmt("consumed:%s", name), "%s: encoding of %zu bytes, %zd consumed", name, r.out.size(), b.b->begin() - start);
        }
    }
    static void hostile(Rng& g, char const* name)
    {
        Bytes in;
        bool truncated = false;
        T seed;
        Gen gen(g, g.chance(10) ? 1500 : 200);
        gen(seed);
        Ref r; r.alt = g.chance(50) ? &g : nullptr; r(seed);
        in = r.out;
        bool unknown = false;
        unsigned kind = g.below(7);
        switch (kind)
        {
        case 6: // a form no version of the standard knows
            if (!r.nodePos.empty() && (r.varPos.empty() || g.chance(60))) { auto& x = in[r.nodePos[g.below(r.nodePos.size())]]; x = (x & 0xc0) | (6 + g.below(10)); unknown = true; }
            else if (!r.varPos.empty()) { auto& x = in[r.varPos[g.below(r.varPos.size())]]; x = (x & 0xc0) | (32 + g.below(32)); unknown = true; }
            break;
        case 0: // random bytes
            in.clear();
            for (unsigned n = g.below(g.chance(20) ? 600 : 60); n; --n) in.push_back(g.chance(30) ? g.pick({0, 1, 0x40, 0x80, 0xff, 0x7f}) : g.next());
            break;
        case 1: // truncated
            if (!in.empty()) { in.resize(g.below(in.size())); truncated = true; }
            break;
        case 2: case 3: // hostile lengths
            for (unsigned n = 1 + g.below(2); n && !r.lenPos.empty(); --n)
            {
                size_t p = r.lenPos[g.below(r.lenPos.size())];
                uint32_t v = g.pick({0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x10000000u, 0x00ffffffu, 0xffffu, 5000u, 4097u, 4096u, 300u, 0x7ffffffcu, 0x08000000u});
                if (g.chance(30)) v = (uint32_t)in.size() + g.range(-8, 8);
                for (int i = 0; i < 4; ++i) in[p + i] = v >> (8 * i);
            }
            break;
        case 4: // flips
            for (unsigned n = 1 + g.below(4); n && !in.empty(); --n) in[g.below(in.size())] = g.next();
            break;
        default: // deep or wide structures
            in.clear();
            {
                unsigned n = g.chance(50) ? g.below(200) : 4096;
                uint8_t x = g.pick({0x40, 0x7f, 0xff, 0x00, 0x80, 0xc1, 0x8c, 0x01});
                in.assign(n, x);
                if (g.chance(30)) { Bytes h(r.out.begin(), r.out.begin() + g.below(r.out.size() + 1)); std::copy(h.begin(), h.begin() + std::min(h.size(), in.size()), in.begin()); }
            }
        }
        if (in.size() > 4096) in.resize(4096);
        // hand-built nesting: as deep as the packet allows
        std::string outcome[2];
        size_t used[2] = {0, 0};
        for (int n = 0; n < 2; ++n)
        {
            Buf b(n ? 0xa5 : 0x01);
            // at the very end of the packet sometimes
            unsigned pre = 0;
            if (g.s % 4 == 0) pre = b.cap - in.size();
            for (unsigned i = 0; i < pre; ++i) b.b->write(0);
            for (unsigned i = 0; i < pre; ++i) b.b->read();
            b.put(in);
            auto start = b.b->begin();
            T t;
            if (n) { Rng g2(g.s); Gen gg(g2, 100); gg(t); }
            std::string why;
            meterTotal = meterMax = 0; meterOn = true;
            Res res;
            try { b.c >> t; res = Res::ok; }
            catch (std::exception const& e) { meterOn = false; res = Res::failed; why = e.what(); }
            catch (...) { meterOn = false; vh::viol("foreign-exception", vh::fmt("decoding %s: something that is not an ordinary exception", name)); throw vh::StopCase(); }
            meterOn = false;
            vh::maxi("allocated_per_decode", meterTotal);
            VCHECK(meterMax <= 2048 * (in.size() + 16), vh::fmt("allocation:%s", name), "%s: %zu bytes of input, one allocation of %zu bytes", name, in.size(), meterMax);
            vh::count(res == Res::ok ? "hostile_accepted" : "hostile_rejected");
            used[n] = b.b->begin() - start;
            outcome[n] = res == Res::ok ? "ok " + dump(t) : "failed";
            if (res == Res::ok)
            {
                VCHECK(b.b->begin() <= b.b->end() && used[n] <= in.size(), vh::fmt("overread:%s", name), "%s: %zu bytes given, %zu used: %s", name, in.size(), used[n], vh::hex(in).c_str());
                // what was accepted can be written and read again unchanged
                Buf b2(3);
                std::string d1 = dump(t), w2;
                if (encode(b2, t, w2) == Res::ok)
                {
                    T t2;
                    auto rr = decode(b2, t2, w2);
                    VCHECK(rr == Res::ok && dump(t2) == d1, vh::fmt("reencode:%s", name), "%s: accepted %s, not stable: %s", name, vh::hex(in).c_str(), shorten(d1).c_str());
                    vh::count("accepted_reencoded");
                }
            }
        }
        VCHECK(outcome[0] == outcome[1], vh::fmt("foreign-bytes:%s", name), "%s: result depends on more than the input %s: %s vs %s", name, vh::hex(in).c_str(), shorten(outcome[0]).c_str(), shorten(outcome[1]).c_str());
        if (truncated) { VCHECK(outcome[0] == "failed", vh::fmt("truncated-accepted:%s", name), "%s: %zu of %zu bytes accepted", name, in.size(), r.out.size()); vh::count("truncations"); }
        if (unknown && in.size() == r.out.size()) { VCHECK(outcome[0] == "failed", vh::fmt("unknown-form-accepted:%s", name), "%s: %s read as %s", name, vh::hex(in).c_str(), shorten(outcome[0]).c_str()); vh::count("unknown_forms"); }
        vh::distinct("hostile_inputs", vh::hashStr(name + std::string(in.begin(), in.end())));
    }
    static void overflow(Rng& g, char const* name)
    {
        T v;
        Gen gen(g, g.chance(50) ? 300 : g.chance(50) ? 4000 : 20000);
        gen(v);
        Ref r; r(v);
        size_t lo = r.out.size(), hi = lo; // other choices for empty strings and arrays have the same size
        Buf b(9);
        unsigned free = g.chance(60) ? (unsigned)std::max<int64_t>(0, (int64_t)lo + g.range(-6, 6)) : g.below(lo + 40);
        if (free > b.cap) free = b.cap;
        for (unsigned i = 0; i < b.cap - free; ++i) b.b->write(0x11);
        std::string why;
        auto res = encode(b, v, why);
        bool fits = hi <= free;
        vh::count(fits ? "encode_fits" : "encode_too_big");
        VCHECK((res == Res::ok) == fits, vh::fmt("packet-limit:%s", name), "%s of %zu bytes with %u bytes left: %s", name, lo, free, res == Res::ok ? "accepted" : "refused");
        for (unsigned i = 0; i < b.cap - free; ++i)
            if (b.b->begin()[i] != 0x11) { VCHECK(false, vh::fmt("overwrite:%s", name), "%s: byte %u in front was overwritten", name, i); break; }
    }
};

struct Entry { char const* name; void (*rt)(Rng&, char const*); void (*spec)(Rng&, char const*); void (*hostile)(Rng&, char const*); void (*overflow)(Rng&, char const*); };
#define E1(T) { #T, Case<T>::roundTrip, Case<T>::spec, Case<T>::hostile, Case<T>::overflow }
using ArrBool = DynamicArray<Boolean>; using ArrU32 = DynamicArray<UInt32>; using ArrI64 = DynamicArray<Int64>; using ArrDouble = DynamicArray<Double>;
using ArrString = DynamicArray<String>; using ArrNode = DynamicArray<NodeId>; using ArrVariant = DynamicArray<Variant>; using ArrDV = DynamicArray<DataValue>;
using ArrDiag = DynamicArray<DiagnosticInfo>; using ArrXNode = DynamicArray<ExpandedNodeId>; using ArrExt = DynamicArray<ExtensionObject>; using ArrLT = DynamicArray<LocalizedText>;
using ArrArr = DynamicArray<DynamicArray<UInt16>>; using ArrByte = DynamicArray<Byte>;
using Tup = std::tuple<Byte, ExpandedNodeId, String, NodeId, ExpandedNodeId, Int64>;
using Tup2 = std::tuple<MessageHeader, HelloMessage>;
using Tup3 = std::tuple<UaMessageHeader, UaSecurityHeader, UaSequenceHeader, UaOpenSecureChannelReqCont>;
using Tup4 = std::tuple<UaMessageHeader, UaSecurityTokenHeader, UaSequenceHeader, UaReadRspCont>;
// compiled once per PART (the templates are expensive); part 0 has main
#ifndef PART
#define PART 0
#endif
#if PART == 0
std::vector<Entry> const types = {
    E1(Boolean), E1(UInt64), E1(NodeId), E1(Variant), E1(UaSecurityTokenHeader), E1(UaCloseSecureChannelRsp), E1(UaSignatureData), E1(UaOpenSecureChannelReqCont), E1(UaCloseSessionReqCont), E1(ArrI64), E1(ArrExt),
};
#elif PART == 1
std::vector<Entry> const types = {
    E1(SByte), E1(Float), E1(StatusCode), E1(MessageHeader), E1(UaSequenceHeader), E1(UaGetEndpointsReq), E1(UaCloseSessionReq), E1(UaOpenSecureChannelRspCont), E1(UaCloseSessionRspCont), E1(ArrDouble), E1(ArrLT),
};
#elif PART == 2
std::vector<Entry> const types = {
    E1(Byte), E1(Double), E1(DiagnosticInfo), E1(HelloMessage), E1(UaRequestHeader), E1(UaGetEndpointsRsp), E1(UaCloseSessionRsp), E1(UaCloseSecureChannelReqCont), E1(UaActivateSessionReqCont), E1(ArrString), E1(ArrArr),
};
#elif PART == 3
std::vector<Entry> const types = {
    E1(Int16), E1(String), E1(QualifiedName), E1(AcknowledgeMessage), E1(UaResponseHeader), E1(UaEndpointDescription), E1(UaActivateSessionReq), E1(UaCloseSecureChannelRspCont), E1(UaActivateSessionRspCont), E1(ArrNode), E1(ArrByte),
};
#elif PART == 4
std::vector<Entry> const types = {
    E1(UInt16), E1(DateTime), E1(LocalizedText), E1(ErrorMessage), E1(UaOpenSecureChannelReq), E1(UaApplicationDescription), E1(UaActivateSessionRsp), E1(UaGetEndpointsReqCont), E1(UaReadReqCont), E1(ArrVariant), E1(Tup),
};
#elif PART == 5
std::vector<Entry> const types = {
    E1(Int32), E1(Guid), E1(ExpandedNodeId), E1(ReverseHelloMessage), E1(UaOpenSecureChannelRsp), E1(UaUserTokenPolicy), E1(ReadValueId), E1(UaGetEndpointsRspCont), E1(UaReadRspCont), E1(ArrDV), E1(Tup2),
};
#elif PART == 6
std::vector<Entry> const types = {
    E1(UInt32), E1(ByteString), E1(ExtensionObject), E1(UaMessageHeader), E1(UaChannelSecurityToken), E1(UaCreateSessionReq), E1(UaReadReq), E1(UaCreateSessionReqCont), E1(ArrBool), E1(ArrDiag), E1(Tup3),
};
#elif PART == 7
std::vector<Entry> const types = {
    E1(Int64), E1(XmlElement), E1(DataValue), E1(UaSecurityHeader), E1(UaCloseSecureChannelReq), E1(UaCreateSessionRsp), E1(UaReadRsp), E1(UaCreateSessionRspCont), E1(ArrU32), E1(ArrXNode), E1(Tup4),
};
#endif
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
struct CodecTypes { void const* p; size_t n; };
CodecTypes CAT(codecTypes, PART)() { return {types.data(), types.size()}; }
#if PART == 0
CodecTypes codecTypes1();
CodecTypes codecTypes2();
CodecTypes codecTypes3();
CodecTypes codecTypes4();
CodecTypes codecTypes5();
CodecTypes codecTypes6();
CodecTypes codecTypes7();
namespace
{
std::vector<Entry> const& allTypes()
{
    static std::vector<Entry> const all = []
    {
        std::vector<Entry> v;
        for (auto t : {codecTypes0(), codecTypes1(), codecTypes2(), codecTypes3(), codecTypes4(), codecTypes5(), codecTypes6(), codecTypes7()})
            v.insert(v.end(), static_cast<Entry const*>(t.p), static_cast<Entry const*>(t.p) + t.n);
        // the types with the most structure more often
        std::vector<Entry> const base = v;
        for (auto& e : base)
            for (auto n : {"NodeId", "DiagnosticInfo", "ExpandedNodeId", "DataValue", "Variant", "Variant", "Variant"})
                if (!strcmp(n, e.name)) v.push_back(e);
        return v;
    }();
    return all;
}
template <class F> void perType(char const* suite, uint64_t q, uint64_t t, F f)
{
    vh::suite(suite, q * allTypes().size(), t * allTypes().size(), [&](Rng& g, uint64_t i)
    {
        auto& e = allTypes()[(i / vh::ctx.nshards + i) % allTypes().size()]; // every shard sees every type
        vh::trace(std::string("type ") + e.name);
        vh::count(std::string("type.") + e.name);
        f(g, e);
    });
}
// every value of the small domains
void exhaustive()
{
    vh::suite("small-domains", 1, 1, [](Rng&, uint64_t)
    {
        std::string why;
        for (unsigned i = 0; i < 65536; ++i)
        {
            Int16 a; a = (int16_t)i; UInt16 u; u = i; SByte s; s = (int8_t)i; Byte y; y = i; Boolean o; o = i & 1;
            Buf* bp; static Buf b; bp = &b; b.b->reset();
            b.c << a << u << s << y << o;
            Bytes want{(uint8_t)i, (uint8_t)(i >> 8), (uint8_t)i, (uint8_t)(i >> 8), (uint8_t)i, (uint8_t)i, (uint8_t)(i & 1)};
            Bytes got(b.b->begin(), b.b->end());
            VCHECK(got == want, "small-encoding", "%u: %s", i, vh::hex(got).c_str());
            Int16 a2; UInt16 u2; SByte s2; Byte y2; Boolean o2;
            b.c >> a2 >> u2 >> s2 >> y2 >> o2;
            VCHECK((int16_t)a2 == (int16_t)i && (uint16_t)u2 == i && (int8_t)s2 == (int8_t)i && (uint8_t)y2 == (uint8_t)i && (bool)o2 == (bool)(i & 1), "small-roundtrip", "%u", i);
            // numeric node ids in the range where the forms change
            for (unsigned ns : {0u, 1u, 255u, 256u})
            {
                if (i > 700 && i < 65000 && i % 37) continue;
                NodeId n; n.namespaceIndex = ns; n.value.emplace<UInt32>() = i + (ns == 1 ? 40 : 0);
                b.b->reset();
                b.c << n;
                Ref r; r(n);
                VCHECK(Bytes(b.b->begin(), b.b->end()) == r.out, "node-form", "ns %u id %u", ns, i);
                NodeId m; m.namespaceIndex = 77; m.value.emplace<String>() = "x";
                b.c >> m;
                VCHECK(dump(m) == dump(n), "node-roundtrip", "ns %u id %u", ns, i);
            }
        }
        vh::count("small_domain_values", 65536);
    });
}
void deepNesting()
{
    vh::suite("deep", 64, 640, [](Rng& g, uint64_t i)
    {
        // as many nested diagnostic infos as fit into a packet
        Bytes in(1 + g.below(4096), 0x40);
        if (g.chance(50)) in.back() = 0;
        Buf b(0);
        b.put(in);
        std::string why;
        {
            DiagnosticInfo d;
            auto r = decode(b, d, why);
            // a limit on the depth would be fine, a truncated value is not
            if (in.back() != 0 || in.size() <= 50) VCHECK((r == Res::ok) == (in.back() == 0), "deep-nesting", "%zu levels: %s", in.size(), r == Res::ok ? "accepted" : why.c_str());
            vh::maxi("nesting", in.size());
        }
        (void)i;
    });
}
} // namespace

int main(int argc, char** argv)
{
    return vh::mainImpl(argc, argv, {
        {"U01", []{ perType("roundtrip", 1200, 16000, [](Rng& g, Entry const& e) { e.rt(g, e.name); }); exhaustive(); }},
        {"U02", []{ perType("spec", 1500, 20000, [](Rng& g, Entry const& e) { e.spec(g, e.name); }); exhaustive(); }},
        {"U03", []{ perType("hostile", 1500, 20000, [](Rng& g, Entry const& e) { e.hostile(g, e.name); });
                    perType("overflow", 300, 5000, [](Rng& g, Entry const& e) { e.overflow(g, e.name); }); deepNesting(); }},
    });
}
#endif
