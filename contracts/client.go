//go:build gvc

// Contracts of the retrying transport (C21).
package contracts

//@ extern event http.RoundTripper.RoundTrip(t, req) resp, err
//@ ensures resp: imp(err == nil, resp != nil && resp.Body != nil)
//@ extern pure client.temporaryer.Temporary(e) b

//@ spec RTN() = calls("http.RoundTripper.RoundTrip")
//@ spec rtnResp(k) = res("http.RoundTripper.RoundTrip", k, 0)
//@ spec rtnErr(k) = res("http.RoundTripper.RoundTrip", k, 1)
//@ spec retriable(s) = s == 429 || s == 500 || s == 503 || s == 504
//@ spec temporary(e) = is(e, "client.temporaryer") && pure("client.temporaryer.Temporary", e)
//@ spec waitDur(k) = res("client.(*ExponentialRoundTripper).calNextWaitDur", k, 0)
//@ spec again(k) = ite(rtnErr(k) != nil, temporary(rtnErr(k)), retriable(rtnResp(k).StatusCode))

//@ func client.(*ExponentialRoundTripper).calNextWaitDur(p, count) dur
//@ requires p != nil
//@ logged
//@ quiet

//@ func client.(*ExponentialRoundTripper).RoundTrip(p, req) resp, err
//@ requires p != nil && p.transport != nil
//@ emits http.RoundTripper.RoundTrip, io.Copy, io.Closer.Close, time.Sleep, client.(*ExponentialRoundTripper).calNextWaitDur
//@ safety [C22]
//@ ensures [C21] attempts: RTN() <= ite(p.maxRetryCount > 0, p.maxRetryCount, 0) && forall(k, 0, RTN(), arg("http.RoundTripper.RoundTrip", k, 0) == p.transport && arg("http.RoundTripper.RoundTrip", k, 1) == req)
//@ ensures [C21] at_least_one: imp(p.maxRetryCount > 0, RTN() >= 1)
//@ ensures [C21] retried: forall(k, 0, RTN() - 1, again(k))
//@ ensures [C21] returned: imp(RTN() >= 1, err == rtnErr(RTN() - 1) && imp(err == nil, resp == rtnResp(RTN() - 1)))
//@ ensures [C21] time_limit: forall(k, 0, RTN() - 1, imp(rtnErr(k) != nil, exists(n, 0, calls("now"), now(n) + waitDur(k) < now(0) + p.maxRetryTime)))
//@ ensures [C21] gave_up: imp(RTN() < p.maxRetryCount && again(RTN() - 1), rtnErr(RTN() - 1) != nil && exists(n, 0, calls("now"), now(n) + waitDur(RTN() - 1) >= now(0) + p.maxRetryTime))
//@ ensures [C21] unread: forall(j, 0, calls("io.Copy"), exists(k, 0, RTN() - 1, arg("io.Copy", j, 1) == rtnResp(k).Body))
//@ ensures [C21] open: forall(j, 0, calls("io.Closer.Close"), exists(k, 0, RTN() - 1, arg("io.Closer.Close", j, 0) == rtnResp(k).Body))
