#pragma once
#include "demo.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgStore.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgDefs.hpp"
#include <cstring>
using namespace app;
using namespace vw;
using vh::Bytes;
namespace rx = app::reactor;
constexpr unsigned sEndpoints = 428, sOpen = 446, sCloseCh = 452, sCreate = 461, sActivate = 467, sClose = 473, sRead = 631;
struct Wr
{
    Bytes b;
    Wr& u8(unsigned v) { b.push_back((uint8_t)v); return *this; }
    Wr& u16(unsigned v) { u8(v); return u8(v >> 8); }
    Wr& u32(uint32_t v) { u16(v & 0xffff); return u16(v >> 16); }
    Wr& u64(uint64_t v) { u32((uint32_t)v); return u32((uint32_t)(v >> 32)); }
    Wr& raw(Bytes const& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
    Wr& str(std::string const& s) { u32((uint32_t)s.size()); b.insert(b.end(), s.begin(), s.end()); return *this; }
    Wr& null() { return u32(0xffffffff); }
    Wr& f64(double d) { uint64_t v; memcpy(&v, &d, 8); return u64(v); }
    Wr& type(unsigned id) { return u8(1).u8(0).u16(id); }
};
inline uint32_t le32(Bytes const& b, size_t o) { return o + 4 > b.size() ? 0xdeadbeef : b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24; }
inline int64_t le64(Bytes const& b, size_t o) { return (int64_t)((uint64_t)le32(b, o) | (uint64_t)le32(b, o + 4) << 32); }
struct Ua
{
    vh::Rng rng{1};
    World w{rng};
    VReactor r{w};
    std::unique_ptr<ua::transport::UaTransportComponent> tr;
    std::unique_ptr<ua::securechannel::UaSecureChannelComponent> sc;
    std::unique_ptr<ua::service::UaServiceComponent> sv;
    rx::LinkAddr addr = mkAddr(127, 0, 0, 1, 4840);
    template <class M> void ctl() { rx::MsgStore<M> st; w.send(st.getMsg()); w.settle(); }
    Ua()
    {
        w.comps[CompIds::compUaTransport] = w.comps[CompIds::compUaSecChannel] = w.comps[CompIds::compUaService] = &r;
        tr = std::make_unique<ua::transport::UaTransportComponent>(w, r);
        sc = std::make_unique<ua::securechannel::UaSecureChannelComponent>(w, r);
        sv = std::make_unique<ua::service::UaServiceComponent>(w, r);
        ctl<MsgUaTransportInitReq>(); ctl<MsgUaSecureChannelInitReq>(); ctl<MsgUaServiceInitReq>();
        rx::MsgStore<MsgUaTransportConfigReq> st; st.getMsg().addr = addr; w.send(st.getMsg()); w.settle();
    }
};
struct Frame { std::string type; Bytes b; };   // b: after the 8 byte header
struct Cl
{
    Ua& u;
    ConnPtr c;
    size_t pos = 0;
    uint32_t chan = 0, token = 0, seq = 50, rid = 100, handle = 1000;
    explicit Cl(Ua& x) : u(x) { c = u.w.connectTo(u.addr); EXPECT(c, "cannot connect"); u.w.settle(); }
    bool closed() { return c->sutClosed || c->reset; }
    static Bytes frame(char const* t, Bytes const& b) { Wr w; w.u8(t[0]).u8(t[1]).u8(t[2]).u8('F').u32(8 + b.size()).raw(b); return w.b; }
    static Bytes hello() { Wr w; w.u32(0).u32(65536).u32(65536).u32(0).u32(5000).str("opc.tcp://localhost:4840"); return frame("HEL", w.b); }
    void hdr(Wr& w, uint32_t auth) { w.u8(2).u16(0).u32(auth).u64(0).u32(++handle).u32(0).null().u32(10000).u8(0).u8(0).u8(0); }
    Bytes opn(uint32_t ch, uint32_t sq, unsigned reqType)
    {
        Wr w; w.u32(ch).str("http://opcfoundation.org/UA/SecurityPolicy#None").null().null().u32(sq).u32(++rid).type(sOpen);
        hdr(w, 0); w.u32(0).u32(reqType).u32(1).null().u32(3600000);
        return frame("OPN", w.b);
    }
    Bytes secured(char const* t, uint32_t ch, uint32_t tok, uint32_t sq, Bytes const& p) { Wr w; w.u32(ch).u32(tok).u32(sq).u32(++rid).raw(p); return frame(t, w.b); }
    Bytes body(unsigned svc, uint32_t auth = 0)
    {
        Wr w; w.type(svc); hdr(w, auth);
        switch (svc)
        {
        case sEndpoints: w.str("opc.tcp://localhost").null().null(); break;
        case sCreate: w.null().null().u8(0).u32(1).null().null().null().null().null().null().null().null().f64(1000).u32(0); break;
        case sActivate: w.null().null().null().null().u8(0).u8(0).u8(0).null().null(); break;
        case sClose: w.u8(1); break;
        case sRead: w.f64(0).u32(0).u32(0); break;
        }
        return w.b;
    }
    void put(Bytes const& b) { u.w.peerSend(c, b); }
    std::vector<Frame> sync()
    {
        u.w.settle();
        std::vector<Frame> v;
        auto& f = c->fromSut;
        while (f.size() - pos >= 8)
        {
            uint32_t n = le32(Bytes(f.begin() + pos, f.begin() + pos + 8), 4);
            if (n < 8 || f.size() - pos < n) break;
            v.push_back({std::string(f.begin() + pos, f.begin() + pos + 3), Bytes(f.begin() + pos + 8, f.begin() + pos + n)});
            pos += n;
        }
        return v;
    }
    // body of an open answer: channel, policy string, two nulls, sequence number, request id, type, response header (24 bytes), version, channel, token
    static size_t opnSeqAt(Bytes const& b) { size_t o = 4; for (int i = 0; i < 3; ++i) { uint32_t n = le32(b, o); o += 4 + (n == 0xffffffff ? 0 : n); } return o; }
    bool takeOpn(std::vector<Frame> const& v)
    {
        for (auto& f : v) if (f.type == "OPN")
        {
            size_t o = opnSeqAt(f.b) + 8 + 4 + 24 + 4;
            chan = le32(f.b, o); token = le32(f.b, o + 4);
            return true;
        }
        return false;
    }
    void open()
    {
        put(hello()); sync();
        put(opn(0, seq, 0));
        EXPECT(takeOpn(sync()), "channel not opened");
    }
    // sends a service request on the own channel; returns the frames that came
    std::vector<Frame> ask(unsigned svc, uint32_t auth = 0) { put(secured("MSG", chan, token, ++seq, body(svc, auth))); return sync(); }
    // MSG answer layout: channel 4, token 4, sequence 4, request id 4, type 4, response header (time 8, handle 4, result 4, diag 1, strings 4, additional 3) then the service's own
    uint32_t create()
    {
        auto v = ask(sCreate);
        EXPECT(v.size() == 1 && v[0].type == "MSG", "session not created");
        Bytes& b = v[0].b; size_t o = 20 + 24;
        if (b[o] == 0) return b[o + 1];
        if (b[o] == 1) return b[o + 2] | b[o + 3] << 8;
        return le32(b, o + 3);
    }
};
