import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
from prelude import *
from prelude2 import *
mk("b73", "C69", "storage that selects its data by a value of the caller's context", "the target of an exchange is looked up without the values and the deadline of the caller's context", "server/services/token",
   [("server/services/token/grant_token_exchange.go", "s.resources.GetByURI(ctx, *req.Audience)", "s.resources.GetByURI(context.Background(), *req.Audience)")],
   TOKENS + '''
type tenant struct{}

type tenantResources struct{ resourceStore }

func (s tenantResources) GetByURI(ctx context.Context, u string) (*resourcev1.Resource, error) {
	if ctx.Value(tenant{}) != "blue" {
		return nil, storage.ErrNotFound
	}
	return s.resourceStore.GetByURI(ctx, u)
}

func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.token("s1", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	w.resources["https://api.example"] = &resourcev1.Resource{Urn: "urn:api"}
	svc := token.New(gen{w, "at"}, gen{w, "rt"}, clientStore{w}, requestStore{}, codeStore{w}, deviceStore{w}, tokenStore{w}, tenantResources{resourceStore{w}})
	req := exchangeRequest(c, "s1")
	aud := "https://api.example"
	req.Audience = &aud
	res, err := svc.Token(context.WithValue(context.Background(), tenant{}, "blue"), req)
	if err != nil || res.AccessToken.GetMetadata().GetAudience() != "urn:api" {
		t.Fatal(err, res)
	}
}
''')
mk("b74", "C69", "a caller with a deadline and a server that does not answer", "the retrieval of the key set does not end with the caller's deadline", "client",
   [("client/http.go", "	req, err := http.NewRequestWithContext(ctx, http.MethodGet, jwksURL.String(), nil)", "	req, err := http.NewRequest(http.MethodGet, jwksURL.String(), nil)")],
   '''
package client

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
)

func TestDemo(t *testing.T) {
	done := make(chan bool)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}))
	defer srv.Close()
	defer close(done)
	c := &httpClient{opts: &Options{}, issuer: srv.URL, httpClient: srv.Client(), serverMetadata: &discoveryv1.ServerMetadata{JwksUri: srv.URL}}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	_, _, err := c.PublicKeys(ctx)
	if err == nil || time.Since(t0) > 3*time.Second {
		t.Fatal(err, time.Since(t0))
	}
}
''')
