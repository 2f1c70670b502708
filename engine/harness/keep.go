package harness

import (
	"context"

	"google.golang.org/protobuf/proto"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
)

// kept is an answer the way it was when it was given.
type kept struct {
	call     string
	now, was proto.Message
}

// keeper passes calls on and remembers their answers. An answer belongs to the caller:
// unchanged looks at all of them again later.
type keeper struct {
	a rpc.Comfo
	c *X
}

func keep[M proto.Message](k keeper, read bool, call string, m M, err error) (M, error) {
	if err == nil && (!read || k.c.keepReads) {
		k.c.kept = append(k.c.kept, kept{call, m, proto.Clone(m)})
	}
	return m, err
}

// unchanged reports answers that have changed since they were given.
func (c *X) unchanged() {
	for _, k := range c.kept {
		if !proto.Equal(k.now, k.was) {
			c.Fail("answer-changed", "an answer of %s was {%v}, later it was {%v}", k.call, k.was, k.now)
		}
	}
}

func (k keeper) GetBootInfo(ctx context.Context, q *rpc.Noop) (*rpc.BootInfo, error) {
	r, err := k.a.GetBootInfo(ctx, q)
	return keep(k, true, "GetBootInfo", r, err)
}
func (k keeper) GetBypass(ctx context.Context, q *rpc.Noop) (*rpc.Bypass, error) {
	r, err := k.a.GetBypass(ctx, q)
	return keep(k, true, "GetBypass", r, err)
}
func (k keeper) GetErrors(ctx context.Context, q *rpc.Noop) (*rpc.Errors, error) {
	r, err := k.a.GetErrors(ctx, q)
	return keep(k, true, "GetErrors", r, err)
}
func (k keeper) GetFans(ctx context.Context, q *rpc.Noop) (*rpc.Fans, error) {
	r, err := k.a.GetFans(ctx, q)
	return keep(k, true, "GetFans", r, err)
}
func (k keeper) GetFanProfiles(ctx context.Context, q *rpc.Noop) (*rpc.FanProfiles, error) {
	r, err := k.a.GetFanProfiles(ctx, q)
	return keep(k, true, "GetFanProfiles", r, err)
}
func (k keeper) GetTemps(ctx context.Context, q *rpc.Noop) (*rpc.Temps, error) {
	r, err := k.a.GetTemps(ctx, q)
	return keep(k, true, "GetTemps", r, err)
}
func (k keeper) SetComfortTemp(ctx context.Context, q *rpc.ComfortTarget) (*rpc.ComfortModified, error) {
	r, err := k.a.SetComfortTemp(ctx, q)
	return keep(k, false, "SetComfortTemp", r, err)
}
func (k keeper) SetFanSpeed(ctx context.Context, q *rpc.FanSpeedTarget) (*rpc.FanSpeedModified, error) {
	r, err := k.a.SetFanSpeed(ctx, q)
	return keep(k, false, "SetFanSpeed", r, err)
}
func (k keeper) SetFanProfile(ctx context.Context, q *rpc.FanProfileTarget) (*rpc.FanProfileModified, error) {
	r, err := k.a.SetFanProfile(ctx, q)
	return keep(k, false, "SetFanProfile", r, err)
}
func (k keeper) FlushCache(ctx context.Context, q *rpc.FlushCacheRequest) (*rpc.FlushCacheResponse, error) {
	r, err := k.a.FlushCache(ctx, q)
	return keep(k, false, "FlushCache", r, err)
}
