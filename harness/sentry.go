package main

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/tendermint/tendermint/crypto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	cryptoenc "github.com/tendermint/tendermint/crypto/encoding"
	"github.com/tendermint/tendermint/libs/protoio"
	"github.com/tendermint/tendermint/p2p/conn"
	privvalproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

// Sentry plays a chain node: it listens for a remote signer and sends it requests.
type Sentry struct {
	ln   net.Listener
	Addr string // tcp://host:port
	key  tmEd.PrivKey

	mu    sync.Mutex
	cond  *sync.Cond
	conn  *conn.SecretConnection
	raw   net.Conn
	Conns int  // sessions established so far
	Deaf  bool // accept connections but do not answer the handshake
	call  sync.Mutex
}

func newSentry() *Sentry {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	return newSentryOn(ln)
}

func newSentryOn(ln net.Listener) *Sentry {
	s := &Sentry{ln: ln, Addr: "tcp://" + ln.Addr().String(), key: tmEd.GenPrivKey()}
	s.cond = sync.NewCond(&s.mu)
	go s.accept(ln)
	return s
}

func (s *Sentry) accept(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		deaf := s.Deaf
		s.mu.Unlock()
		if deaf {
			go func() { time.Sleep(200 * time.Millisecond); c.Close() }()
			continue
		}
		go func() {
			c.SetDeadline(time.Now().Add(20 * time.Second))
			sc, err := conn.MakeSecretConnection(c, s.key)
			if err != nil {
				c.Close()
				return
			}
			c.SetDeadline(time.Time{})
			s.mu.Lock()
			if s.raw != nil {
				s.raw.Close()
			}
			s.conn, s.raw = sc, c
			s.Conns++
			s.cond.Broadcast()
			s.mu.Unlock()
		}()
	}
}

// Close stops listening and drops the session.
func (s *Sentry) Close() {
	s.ln.Close()
	s.drop()
}

func (s *Sentry) drop() {
	s.mu.Lock()
	if s.raw != nil {
		s.raw.Close()
	}
	s.conn, s.raw = nil, nil
	s.mu.Unlock()
}

// session waits for an established session.
func (s *Sentry) session(wait time.Duration) (*conn.SecretConnection, error) {
	t := time.AfterFunc(wait, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(wait)
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.conn == nil {
		if !time.Now().Before(end) {
			return nil, errNoSession
		}
		s.cond.Wait()
	}
	return s.conn, nil
}

var (
	errNoSession = errors.New("no session")
	errNoAnswer  = errors.New("no answer")
)

// lost forgets a broken session.
func (s *Sentry) lost(sc *conn.SecretConnection) {
	s.mu.Lock()
	if s.conn == sc {
		s.raw.Close()
		s.conn, s.raw = nil, nil
	}
	s.mu.Unlock()
}

// Call sends one request and waits for the response to it.
func (s *Sentry) Call(req privvalproto.Message, wait time.Duration) (privvalproto.Message, error) {
	s.call.Lock()
	defer s.call.Unlock()
	var res privvalproto.Message
	sc, err := s.session(wait)
	if err != nil {
		return res, err
	}
	if _, err := protoio.NewDelimitedWriter(sc).WriteMsg(&req); err != nil {
		s.lost(sc)
		return res, fmt.Errorf("%w: write: %v", errNoAnswer, err)
	}
	sc.SetReadDeadline(time.Now().Add(wait))
	if _, err := protoio.NewDelimitedReader(sc, 1<<20).ReadMsg(&res); err != nil {
		s.lost(sc)
		return res, fmt.Errorf("%w: read: %v", errNoAnswer, err)
	}
	sc.SetReadDeadline(time.Time{})
	return res, nil
}

func request(m Msg) privvalproto.Message {
	m = m.Clone()
	if m.Vote != nil {
		return privvalproto.Message{Sum: &privvalproto.Message_SignVoteRequest{
			SignVoteRequest: &privvalproto.SignVoteRequest{Vote: m.Vote, ChainId: m.ChainID}}}
	}
	return privvalproto.Message{Sum: &privvalproto.Message_SignProposalRequest{
		SignProposalRequest: &privvalproto.SignProposalRequest{Proposal: m.Proposal, ChainId: m.ChainID}}}
}

// errRefused is an error response of the remote signer.
type errRefused struct{ text string }

func (e *errRefused) Error() string { return "refused: " + e.text }

// response reads the answer to a sign request for m.
func response(m Msg, res privvalproto.Message) (Msg, error) {
	got := Msg{ChainID: m.ChainID}
	var e *privvalproto.RemoteSignerError
	if m.Vote != nil {
		r := res.GetSignedVoteResponse()
		if r == nil {
			return got, fmt.Errorf("wrong kind of answer: %T", res.Sum)
		}
		v := r.Vote
		got.Vote, e = &v, r.Error
	} else {
		r := res.GetSignedProposalResponse()
		if r == nil {
			return got, fmt.Errorf("wrong kind of answer: %T", res.Sum)
		}
		p := r.Proposal
		got.Proposal, e = &p, r.Error
	}
	if e != nil {
		return got, &errRefused{e.Description}
	}
	return got, nil
}

// Sign asks the remote signer to sign a message.
func (s *Sentry) Sign(m Msg, wait time.Duration) Outcome {
	o := Outcome{Msg: m.Clone(), Got: m.Clone(), Call: tick()}
	res, err := s.Call(request(m), wait)
	if err != nil {
		o.Err = err
	} else {
		o.Got, o.Err = response(m, res)
		if o.Err != nil && o.Got.Vote == nil && o.Got.Proposal == nil {
			o.Got = m.Clone()
		}
	}
	o.Ret = tick()
	return o
}

func pubKeyRequest() privvalproto.Message {
	return privvalproto.Message{Sum: &privvalproto.Message_PubKeyRequest{PubKeyRequest: &privvalproto.PubKeyRequest{ChainId: chain}}}
}

func pingRequest() privvalproto.Message {
	return privvalproto.Message{Sum: &privvalproto.Message_PingRequest{PingRequest: &privvalproto.PingRequest{}}}
}

func pubKeyOf(res privvalproto.Message) (crypto.PubKey, error) {
	r := res.GetPubKeyResponse()
	if r == nil {
		return nil, fmt.Errorf("wrong kind of answer: %T", res.Sum)
	}
	if r.Error != nil {
		return nil, &errRefused{r.Error.Description}
	}
	return cryptoenc.PubKeyFromProto(r.PubKey)
}

var _ = tmProto.Vote{}
