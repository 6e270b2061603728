package simrt

// HTTPWorld routes HTTP requests to server models.
type HTTPWorld struct {
	s       *Sim
	Servers map[string]func(*HTTPReq) HTTPResp // by host:port
	Reqs    int64
	Busy    int // requests without an answer yet
	Idle    int // kept by transports
	Open    int // answers that were neither read to their end nor closed
}

type HTTPReq struct {
	Method string
	Host   string
	Path   string
	Query  string
	Header map[string][]string
	Body   []byte
	Ctype  string
	At     int64 // arrival time
}

// HTTPResp is what the server model decides when the request arrives.
type HTTPResp struct {
	Delay  int64 // until the response headers reach the client
	Hang   bool  // no response ever
	Err    error // transport error (reset) after Delay
	Status int
	Body   []byte
	Header map[string]string
	// BodyHang: headers arrive but the body never ends
	BodyHang bool
}

func newHTTPWorld(s *Sim) *HTTPWorld {
	return &HTTPWorld{s: s, Servers: map[string]func(*HTTPReq) HTTPResp{}}
}

func HTTP() *HTTPWorld { return S.HTTP }
