// ---------------------------------------------------------------- C15 RTP time

pred tval(t) := t.sec * 1000000 + t.microsec
pred tok(t) := t.microsec < 1000000

func rtp.RTPTime.Clone(this) (r)
  props C15
  requires this != nil
  ensures [C15] fresh(r) && r != nil
  ensures [C15] copy: r.sec == this.sec && r.microsec == this.microsec

func rtp.RTPTime.Add(this, that)
  props C15
  requires this != nil && that != nil && tok(this) && tok(that)
  modifies this.sec, this.microsec
  ensures [C15] normal: tok(this)
  ensures [C15] sum: tval(this) % 4294967296000000 == (old(tval(this)) + old(tval(that))) % 4294967296000000

func rtp.RTPTime.Sub(this, that)
  props C15
  requires this != nil && that != nil && tok(this) && tok(that)
  modifies this.sec, this.microsec
  ensures [C15] normal: tok(this)
  ensures [C15] difference: tval(this) % 4294967296000000 == (old(tval(this)) - old(tval(that))) % 4294967296000000

func rtp.RTPTime.LT(this, that) (r)
  props C15
  requires this != nil && that != nil
  ensures [C15] lex: r <==> (this.sec < that.sec || (this.sec == that.sec && this.microsec < that.microsec))
func rtp.RTPTime.GT(this, that) (r)
  props C15
  requires this != nil && that != nil
  ensures [C15] lex: r <==> (this.sec > that.sec || (this.sec == that.sec && this.microsec > that.microsec))
func rtp.RTPTime.ELT(this, that) (r)
  props C15
  requires this != nil && that != nil
  ensures [C15] lex: r <==> (this.sec < that.sec || (this.sec == that.sec && this.microsec <= that.microsec))
func rtp.RTPTime.EGT(this, that) (r)
  props C15
  requires this != nil && that != nil
  ensures [C15] lex: r <==> (this.sec > that.sec || (this.sec == that.sec && this.microsec >= that.microsec))

func rtp.CurrentRTPTime() (r)
  props C15
  ensures [C15] normal: r != nil && tok(r)

trusted func time.Time.UnixNano(t) (n)
  ensures n >= 0

// ---------------------------------------------------------------- C16 drand48

func rtp.RandomRand48.SetSeed(this, seed)
  props C16
  requires this != nil
  modifies this.state
  ensures [C16] seeded: this.state == seed * 65536 + 0x330E

func rtp.RandomRand48.GetRandom32(this) (r)
  props C16
  requires this != nil
  modifies this.state
  ensures [C16] step: this.state == (old(this.state) * 0x5DEECE66D + 0xB) % 281474976710656
  ensures [C16] high: r == this.state / 65536

func rtp.RandomRand48.GetRandom16(this) (r)
  props C16
  requires this != nil
  modifies this.state
  ensures [C16] step: this.state == (old(this.state) * 0x5DEECE66D + 0xB) % 281474976710656
  ensures [C16] high: r == this.state / 4294967296

func rtp.RandomRand48.GetRandom8(this) (r)
  props C16
  requires this != nil
  modifies this.state
  ensures [C16] step: this.state == (old(this.state) * 0x5DEECE66D + 0xB) % 281474976710656
  ensures [C16] high: r == this.state / 1099511627776

func rtp.RandomRand48.GetRandomDouble(this) (r)
  props C16
  requires this != nil
  modifies this.state
  ensures [C16] step: this.state == (old(this.state) * 0x5DEECE66D + 0xB) % 281474976710656

func rtp.NewRandomRand48FromSeed(seed) (r)
  props C16
  ensures [C16] seeded: r != nil && fresh(r) && r.state == seed * 65536 + 0x330E

// ---------------------------------------------------------------- C11 header codec

pred be16(b, o) := b[o] * 256 + b[o+1]
pred be32(b, o) := b[o] * 16777216 + b[o+1] * 65536 + b[o+2] * 256 + b[o+3]

pred hdrok(h) := h != nil && h.version <= 3 && h.padding <= 1 && h.extension <= 1 && h.csrccount <= 15
  && h.marker <= 1 && h.payloadtype <= 127 && len(h.csrc) >= h.csrccount

pred hdrbits(h, b) := b[0] == h.version * 64 + h.padding * 32 + h.extension * 16 + h.csrccount
  && b[1] == h.marker * 128 + h.payloadtype
  && be16(b, 2) == h.sequencenumber && be32(b, 4) == h.timestamp && be32(b, 8) == h.ssrc

trusted func rtp.CheckEndian()
  modifies rtp.bigEndian

func rtp.NewRTPHeader() (h)
  modifies rtp.bigEndian
  ensures h != nil && fresh(h) && h.csrccount == 0 && h.version == 0 && h.padding == 0 && h.extension == 0 && h.marker == 0 && h.payloadtype == 0
  ensures len(h.csrc) == 0

func rtp.RTPHeader.Parse(this, packetbytes) (e)
  props C11 C13
  requires this != nil
  modifies all(this)
  inv <i uint8> forall k int :: {this.csrc[k]} 0 <= k && k < i ==> this.csrc[k] == be32(packetbytes, 12 + 4*k)
  ensures [C11,C12,C13] accepted: e == nil <==> len(packetbytes) >= 12 && len(packetbytes) >= 12 + 4 * (packetbytes[0] % 16)
  ensures [C11,C12,C13] valid: e == nil ==> hdrok(this) && len(this.csrc) == this.csrccount
  ensures [C11,C12,C13] fields: e == nil ==> hdrbits(this, packetbytes)
  ensures [C11,C12,C13] csrcs: e == nil ==> forall k int :: {this.csrc[k]} 0 <= k && k < this.csrccount ==> this.csrc[k] == be32(packetbytes, 12 + 4*k)
  ensures e == nil ==> fresh(this.csrc)

pred byte3(x) := x / 16777216
pred byte2(x) := x / 65536 % 256
pred byte1(x) := x / 256 % 256
pred byte0(x) := x % 256

func rtp.RTPHeader.Encode(this) (r)
  props C11 C12
  requires hdrok(this)
  inv <i uint8, b []byte> forall k int :: {this.csrc[k]} 0 <= k && k < i ==> b[12 + 4*k] == byte3(this.csrc[k])
  inv <i uint8, b []byte> forall k int :: {this.csrc[k]} 0 <= k && k < i ==> b[13 + 4*k] == byte2(this.csrc[k])
  inv <i uint8, b []byte> forall k int :: {this.csrc[k]} 0 <= k && k < i ==> b[14 + 4*k] == byte1(this.csrc[k])
  inv <i uint8, b []byte> forall k int :: {this.csrc[k]} 0 <= k && k < i ==> b[15 + 4*k] == byte0(this.csrc[k])
  inv <b []byte> hdrbits(this, b)
  ensures [C11,C12,C13] size: len(r) == 12 + 4 * this.csrccount && fresh(r)
  ensures [C11,C12,C13] layout: hdrbits(this, r)
  ensures [C11,C12,C13] csrc-byte3: forall k int :: {this.csrc[k]} 0 <= k && k < this.csrccount ==> r[12 + 4*k] == byte3(this.csrc[k])
  ensures [C11,C12,C13] csrc-byte2: forall k int :: {this.csrc[k]} 0 <= k && k < this.csrccount ==> r[13 + 4*k] == byte2(this.csrc[k])
  ensures [C11,C12,C13] csrc-byte1: forall k int :: {this.csrc[k]} 0 <= k && k < this.csrccount ==> r[14 + 4*k] == byte1(this.csrc[k])
  ensures [C11,C12,C13] csrc-byte0: forall k int :: {this.csrc[k]} 0 <= k && k < this.csrccount ==> r[15 + 4*k] == byte0(this.csrc[k])

func rtp.NewRTPHeaderFromBytes(packetbytes) (h, e)
  props C11 C13
  modifies rtp.bigEndian
  ensures [C11,C12,C13] accepted: e == nil <==> len(packetbytes) >= 12 && len(packetbytes) >= 12 + 4 * (packetbytes[0] % 16)
  ensures [C11,C12,C13] valid: e == nil ==> h != nil && fresh(h) && hdrok(h) && len(h.csrc) == h.csrccount
  ensures [C11,C12,C13] fields: e == nil ==> hdrbits(h, packetbytes)
  ensures [C11,C12,C13] csrcs: e == nil ==> forall k int :: {h.csrc[k]} 0 <= k && k < h.csrccount ==> h.csrc[k] == be32(packetbytes, 12 + 4*k)
  ensures [C11,C12,C13] none: e != nil ==> h == nil

// ---------------------------------------------------------------- header extension

func rtp.NewRTPExtension() (x)
  ensures x != nil && fresh(x) && x.length == 0 && len(x.data) == 0

pred extok(x) := x != nil && len(x.data) >= x.length

func rtp.RTPExtension.Parse(this, packetbytes) (e)
  props C11 C13
  requires this != nil
  modifies all(this)
  inv <i int> 0 <= i && i <= this.length
  inv <i int> forall k int :: {this.data[k]} 0 <= k && k < i ==> this.data[k] == be32(packetbytes, 4 + 4*k)
  ensures [C11,C12,C13] accepted: e == nil <==> len(packetbytes) >= 4 && len(packetbytes) >= 4 + 4 * be16(packetbytes, 2)
  ensures [C11,C12,C13] fields: e == nil ==> this.id == be16(packetbytes, 0) && this.length == be16(packetbytes, 2)
  ensures [C11,C12,C13] words: e == nil ==> forall k int :: {this.data[k]} 0 <= k && k < this.length ==> this.data[k] == be32(packetbytes, 4 + 4*k)
  ensures [C11,C12,C13] valid: e == nil ==> len(this.data) == this.length && fresh(this.data)

func rtp.NewRTPExtensionFromBytes(packetbytes) (x)
  props C11 C13
  ensures [C11,C12,C13] accepted: x != nil <==> len(packetbytes) >= 4 && len(packetbytes) >= 4 + 4 * be16(packetbytes, 2)
  ensures [C11,C12,C13] fields: x != nil ==> fresh(x) && x.id == be16(packetbytes, 0) && x.length == be16(packetbytes, 2) && len(x.data) == x.length
  ensures [C11,C12,C13] words: x != nil ==> forall k int :: {x.data[k]} 0 <= k && k < x.length ==> x.data[k] == be32(packetbytes, 4 + 4*k)

func rtp.RTPExtension.Encode(this) (r)
  props C11 C12
  requires extok(this)
  inv <i int, b []byte> forall k int :: {this.data[k]} 0 <= k && k < i ==> b[4 + 4*k] == byte3(this.data[k])
  inv <i int, b []byte> forall k int :: {this.data[k]} 0 <= k && k < i ==> b[5 + 4*k] == byte2(this.data[k])
  inv <i int, b []byte> forall k int :: {this.data[k]} 0 <= k && k < i ==> b[6 + 4*k] == byte1(this.data[k])
  inv <i int, b []byte> forall k int :: {this.data[k]} 0 <= k && k < i ==> b[7 + 4*k] == byte0(this.data[k])
  inv <b []byte> be16(b, 0) == this.id && be16(b, 2) == this.length
  ensures [C11,C12,C13] size: len(r) == 4 + 4 * this.length && fresh(r)
  ensures [C11,C12,C13] layout: be16(r, 0) == this.id && be16(r, 2) == this.length
  ensures [C11,C12,C13] word-byte3: forall k int :: {this.data[k]} 0 <= k && k < this.length ==> r[4 + 4*k] == byte3(this.data[k])
  ensures [C11,C12,C13] word-byte2: forall k int :: {this.data[k]} 0 <= k && k < this.length ==> r[5 + 4*k] == byte2(this.data[k])
  ensures [C11,C12,C13] word-byte1: forall k int :: {this.data[k]} 0 <= k && k < this.length ==> r[6 + 4*k] == byte1(this.data[k])
  ensures [C11,C12,C13] word-byte0: forall k int :: {this.data[k]} 0 <= k && k < this.length ==> r[7 + 4*k] == byte0(this.data[k])

// ---------------------------------------------------------------- packets

pred bufok(d) := len(d) <= 549755813888

func rtp.RTPPacket.BuildPacket(rp, pt, payload, seq, ts, ssrc, mk, ncsrc, csrcs, gotext, extid, extlen, extdata) (e)
  props C12 C13
  requires rp != nil && bufok(payload)
  requires ncsrc <= 15 ==> len(csrcs) >= ncsrc
  requires gotext ==> len(extdata) >= extlen
  modifies all(rp), rtp.bigEndian
  let hl := 12 + 4 * ncsrc
  let xl := gotext ? 4 + 4 * extlen : 0
  post h := rp.header
  post x := rp.extension
  inv <i uint8> forall k int :: {rp.header.csrc[k]} 0 <= k && k < i ==> rp.header.csrc[k] == csrcs[k]
  inv <i uint16> forall k int :: {rp.extension.data[k]} 0 <= k && k < i ==> rp.extension.data[k] == extdata[k]
  ensures [C12] accepted: e == nil <==> ncsrc <= 15 && pt <= 127 && pt != 72 && pt != 73
  ensures [C12] length: e == nil ==> len(rp.packet) == hl + xl + len(payload)
  ensures [C12] header: e == nil ==> h != nil && h.version == 2 && h.padding == 0 && h.extension == (gotext ? 1 : 0) && h.csrccount == ncsrc && h.marker == (mk ? 1 : 0) && h.payloadtype == pt && h.sequencenumber == seq && h.timestamp == ts && h.ssrc == ssrc
  ensures [C12] csrcs: e == nil ==> len(h.csrc) == ncsrc && forall k int :: {h.csrc[k]} 0 <= k && k < ncsrc ==> h.csrc[k] == csrcs[k]
  ensures [C12] header-bytes: e == nil ==> hdrbits(h, rp.packet)
  ensures [C12] csrc-byte3: e == nil ==> forall k int :: {h.csrc[k]} 0 <= k && k < ncsrc ==> rp.packet[12 + 4*k] == byte3(h.csrc[k])
  ensures [C12] csrc-byte2: e == nil ==> forall k int :: {h.csrc[k]} 0 <= k && k < ncsrc ==> rp.packet[13 + 4*k] == byte2(h.csrc[k])
  ensures [C12] csrc-byte1: e == nil ==> forall k int :: {h.csrc[k]} 0 <= k && k < ncsrc ==> rp.packet[14 + 4*k] == byte1(h.csrc[k])
  ensures [C12] csrc-byte0: e == nil ==> forall k int :: {h.csrc[k]} 0 <= k && k < ncsrc ==> rp.packet[15 + 4*k] == byte0(h.csrc[k])
  ensures [C12] no-extension: e == nil && !gotext ==> x == nil
  ensures [C12] extension: e == nil && gotext ==> x != nil && x.id == extid && x.length == extlen && len(x.data) == extlen && be16(rp.packet, hl) == extid && be16(rp.packet, hl + 2) == extlen
  ensures [C12] extension-words: e == nil && gotext ==> forall k int :: {x.data[k]} 0 <= k && k < extlen ==> x.data[k] == extdata[k]
  ensures [C12] ext-byte3: e == nil && gotext ==> forall k int :: {x.data[k]} 0 <= k && k < extlen ==> rp.packet[hl + 4 + 4*k] == byte3(x.data[k])
  ensures [C12] ext-byte2: e == nil && gotext ==> forall k int :: {x.data[k]} 0 <= k && k < extlen ==> rp.packet[hl + 5 + 4*k] == byte2(x.data[k])
  ensures [C12] ext-byte1: e == nil && gotext ==> forall k int :: {x.data[k]} 0 <= k && k < extlen ==> rp.packet[hl + 6 + 4*k] == byte1(x.data[k])
  ensures [C12] ext-byte0: e == nil && gotext ==> forall k int :: {x.data[k]} 0 <= k && k < extlen ==> rp.packet[hl + 7 + 4*k] == byte0(x.data[k])
  ensures [C12] payload: e == nil ==> str(rp.payload) == str(payload)
  ensures [C12] payload-bytes: e == nil ==> forall k int :: {payload[k]} 0 <= k && k < len(payload) ==> rp.packet[hl + xl + k] == payload[k]

func rtp.NewPacket(pt, payload, seq, ts, ssrc, mk, ncsrc, csrcs, gotext, extid, extlen, extdata) (rp)
  props C12
  requires bufok(payload)
  requires ncsrc <= 15 ==> len(csrcs) >= ncsrc
  requires gotext ==> len(extdata) >= extlen
  modifies rtp.bigEndian
  let hl := 12 + 4 * ncsrc
  let xl := gotext ? 4 + 4 * extlen : 0
  ensures [C12] accepted: rp != nil <==> ncsrc <= 15 && pt <= 127 && pt != 72 && pt != 73
  ensures [C12] length: rp != nil ==> fresh(rp) && len(rp.packet) == hl + xl + len(payload)
  ensures [C12] payload: rp != nil ==> str(rp.payload) == str(payload)

func rtp.RawPacket.IsRTP(this) (r)
  props C13
  requires this != nil
  ensures r == this.isrtp
func rtp.RawPacket.GetData(this) (r)
  props C13
  requires this != nil
  returns this.packetdata
func rtp.RawPacket.GetReceiveTime(this) (r)
  props C13
  requires this != nil
  returns this.receivetime
func rtp.RawPacket.GetDataLength(this) (r)
  props C13
  requires this != nil
  ensures r == len(this.packetdata)
func rtp.NewRawPacket(data, address, recvtime, rtp) (r)
  props C13
  ensures r != nil && fresh(r) && r.packetdata == data && r.receivetime == recvtime && r.isrtp == rtp && r.senderaddress == address

pred hcount(d) := d[0] % 16
pred hext(d) := d[0] / 16 % 2
pred hpad(d) := d[0] / 32 % 2
pred poff(d) := 12 + 4 * hcount(d) + (hext(d) != 0 ? 4 + 4 * be16(d, 12 + 4 * hcount(d)+2) : 0)
pred padlen(d) := hpad(d) != 0 ? d[len(d)-1] : 0
pred rtpwf(d) := len(d) >= 12 && len(d) >= 12 + 4 * hcount(d) && d[0] / 64 == 2 && d[1] != 200 && d[1] != 201
  && (hext(d) != 0 ==> len(d) >= 16 + 4 * hcount(d)) && len(d) >= poff(d)
  && (hpad(d) != 0 ==> padlen(d) > 0 && padlen(d) <= len(d) - poff(d))

func rtp.RTPPacket.ParseRawPacket(rp, rawpack) (e)
  props C12 C13
  requires rp != nil && rawpack != nil && bufok(rawpack.packetdata)
  modifies all(rp), rtp.bigEndian
  let d := rawpack.packetdata
  post h := rp.header
  post x := rp.extension
  ensures [C12] accepted: e == nil <==> rawpack.isrtp && rtpwf(d)
  ensures [C12] packet: e == nil ==> fresh(rp.packet) && str(rp.packet) == str(d)
  ensures [C12,C13] header: e == nil ==> hdrok(h) && hdrbits(h, d)
  ensures [C12] csrcs: e == nil ==> len(h.csrc) == h.csrccount && forall k int :: {h.csrc[k]} 0 <= k && k < h.csrccount ==> h.csrc[k] == be32(d, 12 + 4*k)
  ensures [C12] payload: e == nil ==> str(rp.payload) == str(d)[poff(d) : len(d) - padlen(d)]
  ensures [C12,C13] extension: e == nil && h.extension != 0 ==> extok(x) && x.id == be16(d, 12 + 4 * h.csrccount) && x.length == be16(d, 12 + 4 * h.csrccount + 2) && len(x.data) == x.length
  ensures [C12] extension-words: e == nil && h.extension != 0 ==> forall k int :: {x.data[k]} 0 <= k && k < x.length ==> x.data[k] == be32(d, 12 + 4 * h.csrccount + 4 + 4*k)
  ensures [C12] no-extension: e == nil && h.extension == 0 ==> x == nil

func rtp.NewRTPPacketFromRawPacket(rawpack) (rp, e)
  props C12 C13
  requires rawpack != nil && rawpack.receivetime != nil && bufok(rawpack.packetdata)
  modifies rtp.bigEndian
  let d := rawpack.packetdata
  ensures [C12] accepted: e == nil <==> rawpack.isrtp && rtpwf(d)
  ensures [C12] none: e != nil ==> rp == nil
  ensures [C12] packet: e == nil ==> rp != nil && fresh(rp) && str(rp.packet) == str(d)
  ensures [C12,C13] header: e == nil ==> hdrok(rp.header) && hdrbits(rp.header, d)
  ensures [C12] payload: e == nil ==> str(rp.payload) == str(d)[poff(d) : len(d) - padlen(d)]
  ensures [C13] extension: e == nil && rp.header.extension != 0 ==> extok(rp.extension)

func rtp.RTPPacket.HasExtension(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r <==> rp.header.extension != 0
func rtp.RTPPacket.HasMarker(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r <==> rp.header.marker != 0
func rtp.RTPPacket.GetCSRCCount(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r == rp.header.csrccount
func rtp.RTPPacket.GetCSRC(rp, num) (r)
  props C12 C13
  requires rp != nil && hdrok(rp.header)
  ensures [C12] value: r == (num < rp.header.csrccount ? rp.header.csrc[num] : 0)
func rtp.RTPPacket.GetPayloadType(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r == rp.header.payloadtype
func rtp.RTPPacket.GetSequenceNumber(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r == rp.header.sequencenumber
func rtp.RTPPacket.GetTimestamp(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r == rp.header.timestamp
func rtp.RTPPacket.GetSSRC(rp) (r)
  props C12 C13
  requires rp != nil && rp.header != nil
  ensures [C12] value: r == rp.header.ssrc
func rtp.RTPPacket.GetPayload(rp) (r)
  props C12 C13
  requires rp != nil
  returns rp.payload
func rtp.RTPPacket.GetPacket(rp) (r)
  props C12 C13
  requires rp != nil
  returns rp.packet
func rtp.RTPPacket.GetExtensionID(rp) (r)
  props C12 C13
  requires rp != nil && rp.extension != nil
  ensures [C12] value: r == rp.extension.id
func rtp.RTPPacket.GetExtensionLength(rp) (r)
  props C12 C13
  requires rp != nil && rp.extension != nil
  ensures [C12] value: r == rp.extension.length
func rtp.RTPPacket.GetExtensionData(rp) (r)
  props C12 C13
  requires rp != nil && rp.extension != nil
  returns rp.extension.data
func rtp.RTPPacket.GetReceiveTime(rp) (r)
  props C13
  requires rp != nil
  returns rp.receivetime
func rtp.RTPPacket.Dump(rp) (r)
  props C13
  requires rp != nil && rp.header != nil

// ---------------------------------------------------------------- RTCP

pred rpad(d) := d[0] / 32 % 2
pred rcount(d) := d[0] % 32
// bytes left after the padding announced by the last byte
pred rbody(d, n) := rpad(d) != 0 ? n - d[n-1] : n
pred padok(d, n) := rpad(d) != 0 ==> d[n-1] % 4 == 0 && d[n-1] < n
pred byewf(d, n) := n >= 4 && padok(d, n) && 4 + 4 * rcount(d) <= rbody(d, n)
  && (4 + 4 * rcount(d) < rbody(d, n) ==> 4 + 4 * rcount(d) + 1 + d[4 + 4 * rcount(d)] <= rbody(d, n))
pred byeok(p) := p != nil && (p.knownformat ==> byewf(p.data, len(p.data))
  && p.reasonoffset == (4 + 4 * rcount(p.data) < rbody(p.data, len(p.data)) ? 4 + 4 * rcount(p.data) : 0))

func rtp.NewRTCPBYEPacket(data, datalen) (p)
  props C13 C14
  requires 0 <= datalen && datalen <= len(data) && bufok(data)
  ensures [C14] copy: p != nil && fresh(p) && len(p.data) == datalen && p.datalen == datalen && str(p.data) == str(data)[0:datalen]
  ensures [C14] accepted: p.knownformat <==> byewf(data, datalen)
  ensures [C13,C14] valid: byeok(p)

func rtp.RTCPBYEPacket.GetSSRCCount(this) (r)
  props C13 C14
  requires byeok(this)
  ensures [C14] value: r == (this.knownformat ? rcount(this.data) : 0)
func rtp.RTCPBYEPacket.GetSSRC(this, index) (r)
  props C13 C14
  requires byeok(this)
  requires this.knownformat ==> 0 <= index && index < rcount(this.data)
  ensures [C14] value: this.knownformat ==> r == be32(this.data, 4 + 4*index)
func rtp.RTCPBYEPacket.HasReasonForLeaving(this) (r)
  props C13 C14
  requires byeok(this)
  ensures [C14] value: this.knownformat ==> (r <==> 4 + 4 * rcount(this.data) < rbody(this.data, len(this.data)))
  ensures [C14] unknown: !this.knownformat ==> !r
func rtp.RTCPBYEPacket.GetReasonLength(this) (r)
  props C13 C14
  requires byeok(this)
  ensures [C14] value: r == (this.knownformat && this.reasonoffset != 0 ? this.data[4 + 4 * rcount(this.data)] : 0)
func rtp.RTCPBYEPacket.GetReasonData(this) (r)
  props C13 C14
  requires byeok(this)
  let o := 4 + 4 * rcount(this.data)
  ensures [C14] bytes: this.knownformat && this.reasonoffset != 0 ==> str(r) == str(this.data)[o+1 : o+1+this.data[o]]
  ensures [C14] none: !(this.knownformat && this.reasonoffset != 0) ==> len(r) == 0

pred appwf(d, n) := n >= 4 && padok(d, n) && rbody(d, n) >= 12
pred appok(p) := p != nil && (p.knownformat ==> appwf(p.data, len(p.data)) && p.appdatalen == rbody(p.data, len(p.data)) - 12)

func rtp.NewRTCPAPPPacket(data, datalen) (p)
  props C13 C14
  requires 0 <= datalen && datalen <= len(data) && bufok(data)
  ensures [C14] copy: p != nil && fresh(p) && len(p.data) == datalen && p.datalen == datalen && str(p.data) == str(data)[0:datalen]
  ensures [C14] accepted: p.knownformat <==> appwf(data, datalen)
  ensures [C13,C14] valid: appok(p)
func rtp.RTCPAPPPacket.GetSubType(this) (r)
  props C13 C14
  requires appok(this)
  ensures [C14] value: r == (this.knownformat ? rcount(this.data) : 0)
func rtp.RTCPAPPPacket.GetSSRC(this) (r)
  props C13 C14
  requires appok(this)
  ensures [C14] value: r == (this.knownformat ? be32(this.data, 4) : 0)
func rtp.RTCPAPPPacket.GetName(this) (r)
  props C13 C14
  requires appok(this)
  ensures [C14] bytes: this.knownformat ==> str(r) == str(this.data)[8:12]
  ensures [C14] none: !this.knownformat ==> len(r) == 0
func rtp.RTCPAPPPacket.GetAPPData(this) (r)
  props C13 C14
  requires appok(this)
  ensures [C14] bytes: this.knownformat ==> str(r) == str(this.data)[12 : rbody(this.data, len(this.data))]
  ensures [C14] none: !this.knownformat ==> len(r) == 0
func rtp.RTCPAPPPacket.GetAPPDataLength(this) (r)
  props C13 C14
  requires appok(this)
  ensures [C14] value: r == (this.knownformat ? rbody(this.data, len(this.data)) - 12 : 0)
func rtp.NewRTCPPacket(t, d, dlen) (p)
  props C13
  requires 0 <= dlen && dlen <= len(d)
  ensures p != nil && fresh(p) && p.datalen == dlen && str(p.data) == str(d)[0:dlen] && p.packettype == t && !p.knownformat
func rtp.RTCPPacket.IsKnownFormat(this) (r)
  props C13
  requires this != nil
  ensures r == this.knownformat
