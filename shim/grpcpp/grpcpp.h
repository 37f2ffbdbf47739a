// In-process stand-in for the synchronous gRPC API used by the runners.
//
// A server is a Service registered under an address; each call runs its handler
// in a thread of its own, messages cross in their serialised form, streams are
// asynchronous queues, calls on a server that is down fail with UNAVAILABLE and
// exceptions that leave a handler become UNKNOWN, as in gRPC. Uses that gRPC
// forbids (concurrent writes on a stream, writes after the end of the call) are
// counted in shim::misuses().
#pragma once
#include <google/protobuf/empty.pb.h>
#include <google/protobuf/message_lite.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>

namespace grpc {
enum StatusCode
{
    OK                  = 0,
    CANCELLED           = 1,
    UNKNOWN             = 2,
    INVALID_ARGUMENT    = 3,
    DEADLINE_EXCEEDED   = 4,
    NOT_FOUND           = 5,
    ALREADY_EXISTS      = 6,
    PERMISSION_DENIED   = 7,
    RESOURCE_EXHAUSTED  = 8,
    FAILED_PRECONDITION = 9,
    ABORTED             = 10,
    OUT_OF_RANGE        = 11,
    UNIMPLEMENTED       = 12,
    INTERNAL            = 13,
    UNAVAILABLE         = 14,
    DATA_LOSS           = 15,
    UNAUTHENTICATED     = 16
};

class Status
{
public:
    Status() = default;
    Status(StatusCode code, const std::string& message) : code_(code), message_(message) {}
    Status(StatusCode code, const std::string& message, const std::string&)
        : code_(code), message_(message)
    {
    }
    static const Status& OK;
    static const Status& CANCELLED;
    StatusCode           error_code() const { return code_; }
    std::string          error_message() const { return message_; }
    std::string          error_details() const { return ""; }
    bool                 ok() const { return code_ == StatusCode::OK; }
    void                 IgnoreError() const {}

private:
    StatusCode  code_ = StatusCode::OK;
    std::string message_;
};
namespace shim {
inline const Status kOk;
inline const Status kCancelled(StatusCode::CANCELLED, "");
inline std::atomic<int>& misuses()
{
    static std::atomic<int> n(0);
    return n;
}
} // namespace shim
inline const Status& Status::OK        = shim::kOk;
inline const Status& Status::CANCELLED = shim::kCancelled;

class Service
{
public:
    virtual ~Service() = default;
};

namespace shim {
struct ServerCore
{
    std::mutex              m;
    std::condition_variable cv;
    bool                    down   = false;
    int                     active = 0;
    Service*                service = nullptr;
    std::string             address;
};
struct Registry
{
    std::mutex                                         m;
    std::map<std::string, std::shared_ptr<ServerCore>> servers;
    static Registry&                                   get()
    {
        static Registry r;
        return r;
    }
};
} // namespace shim

class ServerCredentials
{
};
class ChannelCredentials
{
};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}
class Channel
{
public:
    explicit Channel(std::string a) : address_(std::move(a)) {}
    // the server at that address, with one more call in flight
    std::shared_ptr<shim::ServerCore> shim_begin_call()
    {
        std::shared_ptr<shim::ServerCore> c;
        {
            auto&                       r = shim::Registry::get();
            std::lock_guard<std::mutex> l(r.m);
            auto                        it = r.servers.find(address_);
            if (it == r.servers.end()) {
                return nullptr;
            }
            c = it->second;
        }
        std::lock_guard<std::mutex> l(c->m);
        if (c->down) {
            return nullptr;
        }
        c->active++;
        return c;
    }

private:
    std::string address_;
};
inline std::shared_ptr<Channel> CreateChannel(const std::string& a,
                                              const std::shared_ptr<ChannelCredentials>&)
{
    return std::make_shared<Channel>(a);
}
class ServerContext
{
public:
    bool IsCancelled() const { return false; }
};

namespace shim {
using Bytes = std::string;
template<class T>
Bytes pack(const T& m)
{
    return m.SerializeAsString();
}
template<class T>
void unpack(const Bytes& b, T* m)
{
    if (!m->ParseFromString(b)) {
        misuses()++;
    }
}
struct Stream
{
    std::mutex              m;
    std::condition_variable cv;
    std::deque<Bytes>       q;
    bool                    closed = false; // the writing side is done
    bool                    dead   = false; // nobody will read any more
    std::atomic<int>        writers{0};
    bool                    push(Bytes b)
    {
        if (writers.fetch_add(1) != 0) {
            misuses()++;
        }
        bool ok;
        {
            std::lock_guard<std::mutex> l(m);
            if (closed) {
                misuses()++;
            }
            ok = !closed && !dead;
            if (ok) {
                q.push_back(std::move(b));
            }
        }
        cv.notify_all();
        writers.fetch_sub(1);
        return ok;
    }
    bool pop(Bytes* b)
    {
        std::unique_lock<std::mutex> l(m);
        while (q.empty() && !closed && !dead) {
            cv.wait(l);
        }
        if (q.empty() || dead) {
            return false;
        }
        *b = std::move(q.front());
        q.pop_front();
        return true;
    }
    void close()
    {
        {
            std::lock_guard<std::mutex> l(m);
            closed = true;
        }
        cv.notify_all();
    }
    void kill()
    {
        {
            std::lock_guard<std::mutex> l(m);
            dead = true;
        }
        cv.notify_all();
    }
};
// one call in flight
struct Call
{
    Stream                      stream;
    Status                      status;
    Bytes                       reply;
    std::thread                 th;
    std::shared_ptr<ServerCore> core;

    // `handler` runs on the server
    void start(const std::shared_ptr<Channel>& ch, const std::function<Status(Service*)>& handler,
               bool kill_at_end)
    {
        core = ch->shim_begin_call();
        if (!core) {
            status = Status(UNAVAILABLE, "failed to connect to all addresses");
            stream.kill();
            return;
        }
        th = std::thread([this, handler, kill_at_end]() {
            try {
                status = handler(core->service);
            } catch (...) {
                status = Status(UNKNOWN, "Unexpected error in RPC handling");
            }
            if (kill_at_end) {
                stream.kill();
            } else {
                stream.close();
            }
            std::lock_guard<std::mutex> l(core->m);
            core->active--;
            core->cv.notify_all();
        });
    }
    void join()
    {
        if (th.joinable()) {
            th.join();
        }
    }
    ~Call()
    {
        stream.kill();
        join();
    }
};
} // namespace shim

class ClientContext
{
public:
    ClientContext()                     = default;
    ClientContext(const ClientContext&) = delete;
    void TryCancel() {}
    // a context serves one call
    void shim_use()
    {
        if (used_.exchange(true)) {
            shim::misuses()++;
        }
    }

private:
    std::atomic<bool> used_{false};
};

template<class W>
class ServerWriter
{
public:
    explicit ServerWriter(shim::Stream* s) : s_(s) {}
    bool Write(const W& m) { return s_->push(shim::pack(m)); }

private:
    shim::Stream* s_;
};
template<class R>
class ServerReader
{
public:
    explicit ServerReader(shim::Stream* s) : s_(s) {}
    bool Read(R* m)
    {
        shim::Bytes b;
        if (!s_->pop(&b)) {
            return false;
        }
        shim::unpack(b, m);
        return true;
    }

private:
    shim::Stream* s_;
};
template<class R>
class ClientReader
{
public:
    explicit ClientReader(std::unique_ptr<shim::Call> c) : c_(std::move(c)) {}
    bool Read(R* m)
    {
        shim::Bytes b;
        if (!c_->stream.pop(&b)) {
            return false;
        }
        shim::unpack(b, m);
        return true;
    }
    Status Finish()
    {
        c_->join();
        return c_->status;
    }

private:
    std::unique_ptr<shim::Call> c_;
};
template<class W>
class ClientWriter
{
public:
    ClientWriter(std::unique_ptr<shim::Call> c, std::function<void(const shim::Bytes&)> reply)
        : c_(std::move(c)), reply_(std::move(reply))
    {
    }
    bool Write(const W& m) { return c_->stream.push(shim::pack(m)); }
    bool WritesDone()
    {
        c_->stream.close();
        return true;
    }
    Status Finish()
    {
        c_->join();
        if (c_->status.ok()) {
            reply_(c_->reply);
        }
        return c_->status;
    }

private:
    std::unique_ptr<shim::Call>             c_;
    std::function<void(const shim::Bytes&)> reply_;
};

class Server
{
public:
    explicit Server(std::shared_ptr<shim::ServerCore> c) : core_(std::move(c)) {}
    ~Server() { Shutdown(); }
    // refuses new calls and waits for those in flight
    void Shutdown()
    {
        {
            auto&                       r = shim::Registry::get();
            std::lock_guard<std::mutex> l(r.m);
            auto                        it = r.servers.find(core_->address);
            if (it != r.servers.end() && it->second == core_) {
                r.servers.erase(it);
            }
        }
        std::unique_lock<std::mutex> l(core_->m);
        core_->down = true;
        core_->cv.notify_all();
        while (core_->active != 0) {
            core_->cv.wait(l);
        }
    }
    void Wait()
    {
        std::unique_lock<std::mutex> l(core_->m);
        while (!core_->down || core_->active != 0) {
            core_->cv.wait(l);
        }
    }

private:
    std::shared_ptr<shim::ServerCore> core_;
};
class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& a,
                                    const std::shared_ptr<ServerCredentials>&,
                                    int* = nullptr)
    {
        address_ = a;
        return *this;
    }
    ServerBuilder& RegisterService(Service* s)
    {
        service_ = s;
        return *this;
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        auto c     = std::make_shared<shim::ServerCore>();
        c->service = service_;
        c->address = address_;
        auto&                       r = shim::Registry::get();
        std::lock_guard<std::mutex> l(r.m);
        if (!r.servers.emplace(address_, c).second) {
            return nullptr;
        }
        return std::unique_ptr<Server>(new Server(c));
    }

private:
    std::string address_;
    Service*    service_ = nullptr;
};
} // namespace grpc

// what the code generated for one of the two .proto files declares
#define SHIM_GRPC_SERVICE(Name)                                                                   \
    class Name final                                                                              \
    {                                                                                             \
    public:                                                                                       \
        class Service : public grpc::Service                                                      \
        {                                                                                         \
        public:                                                                                   \
            virtual grpc::Status setup(grpc::ServerContext*, const SetupMessage*,                 \
                                       google::protobuf::Empty*)                                  \
            {                                                                                     \
                return grpc::Status(grpc::UNIMPLEMENTED, "");                                     \
            }                                                                                     \
            virtual grpc::Status search(grpc::ServerContext*, const SearchRequestMessage*,        \
                                        grpc::ServerWriter<SearchReply>*)                         \
            {                                                                                     \
                return grpc::Status(grpc::UNIMPLEMENTED, "");                                     \
            }                                                                                     \
            virtual grpc::Status insert(grpc::ServerContext*, const UpdateRequestMessage*,        \
                                        google::protobuf::Empty*)                                 \
            {                                                                                     \
                return grpc::Status(grpc::UNIMPLEMENTED, "");                                     \
            }                                                                                     \
            virtual grpc::Status bulk_insert(grpc::ServerContext*,                                \
                                             grpc::ServerReader<UpdateRequestMessage>*,           \
                                             google::protobuf::Empty*)                            \
            {                                                                                     \
                return grpc::Status(grpc::UNIMPLEMENTED, "");                                     \
            }                                                                                     \
        };                                                                                        \
        class Stub                                                                                \
        {                                                                                         \
        public:                                                                                   \
            explicit Stub(std::shared_ptr<grpc::Channel> ch) : ch_(std::move(ch)) {}              \
            grpc::Status setup(grpc::ClientContext* x, const SetupMessage& m,                     \
                               google::protobuf::Empty* e)                                        \
            {                                                                                     \
                return unary(x, m, e, &Service::setup);                                           \
            }                                                                                     \
            grpc::Status insert(grpc::ClientContext* x, const UpdateRequestMessage& m,            \
                                google::protobuf::Empty* e)                                       \
            {                                                                                     \
                return unary(x, m, e, &Service::insert);                                          \
            }                                                                                     \
            std::unique_ptr<grpc::ClientReader<SearchReply>> search(                              \
                grpc::ClientContext* x, const SearchRequestMessage& m)                            \
            {                                                                                     \
                x->shim_use();                                                                    \
                auto c   = std::make_unique<grpc::shim::Call>();                                  \
                auto raw = c.get();                                                               \
                auto b   = grpc::shim::pack(m);                                                   \
                c->start(                                                                         \
                    ch_,                                                                          \
                    [raw, b](grpc::Service* s) {                                                  \
                        SearchRequestMessage req;                                                 \
                        grpc::shim::unpack(b, &req);                                              \
                        grpc::ServerContext             sc;                                       \
                        grpc::ServerWriter<SearchReply> w(&raw->stream);                          \
                        return dynamic_cast<Service&>(*s).search(&sc, &req, &w);                  \
                    },                                                                            \
                    false);                                                                       \
                return std::make_unique<grpc::ClientReader<SearchReply>>(std::move(c));           \
            }                                                                                     \
            std::unique_ptr<grpc::ClientWriter<UpdateRequestMessage>> bulk_insert(                \
                grpc::ClientContext* x, google::protobuf::Empty* e)                               \
            {                                                                                     \
                x->shim_use();                                                                    \
                auto c   = std::make_unique<grpc::shim::Call>();                                  \
                auto raw = c.get();                                                               \
                c->start(                                                                         \
                    ch_,                                                                          \
                    [raw](grpc::Service* s) {                                                     \
                        google::protobuf::Empty                  r;                               \
                        grpc::ServerContext                      sc;                              \
                        grpc::ServerReader<UpdateRequestMessage> rd(&raw->stream);                \
                        auto st    = dynamic_cast<Service&>(*s).bulk_insert(&sc, &rd, &r);        \
                        raw->reply = grpc::shim::pack(r);                                         \
                        return st;                                                                \
                    },                                                                            \
                    true);                                                                        \
                return std::make_unique<grpc::ClientWriter<UpdateRequestMessage>>(                \
                    std::move(c), [e](const std::string& b) { grpc::shim::unpack(b, e); });       \
            }                                                                                     \
                                                                                                  \
        private:                                                                                  \
            template<class M>                                                                     \
            grpc::Status unary(grpc::ClientContext* x, const M& m, google::protobuf::Empty* e,    \
                               grpc::Status (Service::*f)(grpc::ServerContext*, const M*,         \
                                                          google::protobuf::Empty*))              \
            {                                                                                     \
                x->shim_use();                                                                    \
                grpc::shim::Call c;                                                               \
                auto             raw = &c;                                                        \
                auto             b   = grpc::shim::pack(m);                                       \
                c.start(                                                                          \
                    ch_,                                                                          \
                    [raw, b, f](grpc::Service* s) {                                               \
                        M req;                                                                    \
                        grpc::shim::unpack(b, &req);                                              \
                        google::protobuf::Empty r;                                                \
                        grpc::ServerContext     sc;                                               \
                        auto st    = (dynamic_cast<Service&>(*s).*f)(&sc, &req, &r);              \
                        raw->reply = grpc::shim::pack(r);                                         \
                        return st;                                                                \
                    },                                                                            \
                    true);                                                                        \
                c.join();                                                                         \
                if (c.status.ok()) {                                                              \
                    grpc::shim::unpack(c.reply, e);                                               \
                }                                                                                 \
                return c.status;                                                                  \
            }                                                                                     \
            std::shared_ptr<grpc::Channel> ch_;                                                   \
        };                                                                                        \
        static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel>& ch)            \
        {                                                                                         \
            return std::make_unique<Stub>(ch);                                                    \
        }                                                                                         \
    };
