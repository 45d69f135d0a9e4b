#pragma once
#include "demo.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "MsgStore.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
using namespace app;
using namespace vw;
namespace rx = app::reactor;
struct Rsp { unsigned client, tid; bool ok; unsigned error; vh::Bytes data; };
struct Fwd { unsigned server, session, tid, addr, func, start, num; vh::Bytes data; };
struct Mb
{
    vh::Rng rng{1};
    World w{rng};
    VReactor r{w};
    std::unique_ptr<modbus::ModbusComponent> comp;
    std::vector<Rsp> rsps;
    std::vector<Fwd> fwd;
    std::vector<std::vector<int>> cfg;
    unsigned initRsp = 0, relRsp = 0;
    Mb()
    {
        w.comps[CompIds::compModbus] = &r;
        w.onOther = [this](rx::MsgInterface const& m)
        {
            switch ((unsigned)m.getMsgId())
            {
            case MsgIds::modbusInitRsp: ++initRsp; break;
            case MsgIds::modbusReleaseRsp: ++relRsp; break;
            case MsgIds::modbusConfigRsp: { auto& c = static_cast<MsgModbusConfigRsp const&>(m); std::vector<int> v; for (unsigned i = 0; i < c.numItems; ++i) v.push_back(c.items[i].status == MsgStatus::success); cfg.push_back(v); break; }
            case MsgIds::modbusClientAduRsp: { auto& a = static_cast<MsgModbusClientAduRsp const&>(m); rsps.push_back({a.clientId, a.transactId, a.status == MsgStatus::success, (unsigned)a.error, vh::Bytes(a.data, a.data + a.numBytes)}); break; }
            case MsgIds::modbusAduReq: { auto& a = static_cast<MsgModbusAduReq const&>(m); fwd.push_back({a.serverId, a.sessionId, a.transactId, a.addr, (unsigned)a.func, a.startItem, a.numItems, vh::Bytes(a.data, a.data + a.numBytes)}); break; }
            }
        };
        comp = std::make_unique<modbus::ModbusComponent>(w, r);
    }
    void init(unsigned s, unsigned c)
    {
        rx::MsgStore<MsgModbusInitReq> st;
        st.getMsg().maxNumServers = s; st.getMsg().maxNumClients = c;
        w.send(st.getMsg()); w.settle();
    }
    void config(unsigned id, bool server, rx::LinkAddr a)
    {
        rx::MsgStore<MsgModbusConfigReq> st;
        st.getMsg().numItems = 1;
        st.getMsg().items[0].id = id; st.getMsg().items[0].addr = a;
        st.getMsg().items[0].mode = server ? ModbusConfig::Mode::server : ModbusConfig::Mode::client;
        w.send(st.getMsg()); w.settle();
    }
    void release() { rx::MsgStore<MsgModbusReleaseReq> st; w.send(st.getMsg()); w.settle(); }
    void request(unsigned client, unsigned tid, unsigned start, unsigned num, ModbusFunction f = ModbusFunction::readHoldingRegisters, vh::Bytes data = {}, unsigned unit = 1);
};
inline void Mb::request(unsigned client, unsigned tid, unsigned start, unsigned num, ModbusFunction f, vh::Bytes data, unsigned unit)
{
    rx::MsgStore<MsgModbusClientAduReq> st;
    auto& m = st.getMsg();
    m.numItems = 1;
    auto& it = m.item(0);
    it.clientId = client; it.transactId = tid; it.func = f; it.addr = unit; it.startItem = start; it.numItems = num; it.numBytes = data.size();
    memcpy(it.data, data.data(), data.size());
    w.send(m); w.settle();
}
