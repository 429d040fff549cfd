package vs

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"

	"github.com/wavesplatform/gowaves/pkg/logging"
	"github.com/wavesplatform/gowaves/pkg/p2p/incoming"
	"github.com/wavesplatform/gowaves/pkg/p2p/outgoing"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// Hooks of the simulated environment, set by the harness for each execution.
type Hooks struct {
	Establish func(ctx context.Context, p outgoing.EstablishParams, v proto.Version) error
	Incoming  func(ctx context.Context, p incoming.PeerParams) error
	Listen    func(ctx context.Context, network, addr string) (net.Listener, error)
	Serve     func(s *http.Server) error
	Shutdown  func(s *http.Server, ctx context.Context) error
	Notify    func(parent context.Context) (context.Context, context.CancelFunc)
}

// H are the hooks of the current execution.
var H Hooks

func EstablishConnection(ctx context.Context, p outgoing.EstablishParams, v proto.Version) error {
	if W.dead() {
		return errors.New("killed")
	}
	W.point()
	return H.Establish(ctx, p, v)
}

func RunIncomingPeer(ctx context.Context, p incoming.PeerParams) error {
	if W.dead() {
		return errors.New("killed")
	}
	W.point()
	return H.Incoming(ctx, p)
}

func NetListen(_ struct{}, ctx context.Context, network, addr string) (net.Listener, error) {
	if W.dead() {
		return nil, errors.New("killed")
	}
	W.point()
	return H.Listen(ctx, network, addr)
}

func NetListen0(network, addr string) (net.Listener, error) {
	return NetListen(struct{}{}, context.Background(), network, addr)
}

func HTTPListenAndServe(s *http.Server) error {
	if W.dead() {
		return http.ErrServerClosed
	}
	W.point()
	return H.Serve(s)
}

func HTTPListenAndServePkg(addr string, h http.Handler) error {
	return HTTPListenAndServe(&http.Server{Addr: addr, Handler: h})
}

func HTTPShutdown(s *http.Server, ctx context.Context) error {
	if W.dead() {
		return nil
	}
	W.point()
	return H.Shutdown(s, ctx)
}

func NotifyContext(parent context.Context, _ ...os.Signal) (context.Context, context.CancelFunc) {
	return H.Notify(parent)
}

func SignalNotify(c chan<- os.Signal, _ ...os.Signal) {
	ctx, _ := H.Notify(context.Background())
	Go(func() {
		Recv(ctx.Done())
		Select(true, CaseSend(c)(os.Interrupt))
	})
}

// OSExit ends the simulated process: nothing of it runs any more, and only the harness goes on.
func OSExit(code int) {
	w := W
	if w == nil {
		os.Exit(code)
	}
	if w.dead() {
		return
	}
	if w.home == nil {
		w.abort("exit", fmt.Sprintf("%d", code))
		return
	}
	w.Exited, w.ExitCode = true, code
	for _, t := range w.threads {
		if t != w.home && !t.fin {
			t.pred = func() bool { return false }
		}
	}
	for _, t := range w.timers {
		t.dead = true
	}
	if w.onExit != nil {
		w.onExit()
	}
	w.block("exit", func() bool { return false })
}

// Process makes the running thread the only one that survives the exit of the simulated process. The function is called
// at the moment of the exit.
func Process(onExit func()) { W.home, W.onExit = W.cur, onExit }

type fatal struct{}

func (fatal) OnWrite(*zapcore.CheckedEntry, []zapcore.Field) { OSExit(1) }

func nop() *zap.Logger {
	return zap.New(zapcore.NewNopCore(), zap.WithFatalHook(fatal{}))
}

func init() { zap.ReplaceGlobals(nop()) }

func SetupLogger(zapcore.Level, ...logging.Option) *zap.Logger { return nop() }
