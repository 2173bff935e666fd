note("C01","Bernstein/binomial facts are axioms in the spec, proved in specs/lemmas/Bernstein.lean; values up to floating-point rounding.")
note("C04","Floating-point addition is uninterpreted, so the sums are the left-to-right sums.")
note("C12","That decoding an encoded protobuf message yields an equal message is assumed; everything from the object to the message and back is proved.")
note("C13","The protobuf decoder is assumed to return an error or any message whatsoever, and not to panic.")
note("C19","Memory safety of the same functions is not part of this check (C05, C17, C18, C21 cover it).")
note("C20","Per goroutine, over logs of channel events: distinct devices and states, no attach or detach in the middle of a tick, constant callbacks; Device.Next's frame is taken from C19; a tick cut short by closing is exempt.")
note("C22","Trigonometric functions are uninterpreted with range axioms.")
note("C05","Iteration callbacks are assumed to return.")
note("C23","The country tables are checked by executing the package initialiser symbolically; that upper-casing is idempotent is an axiom; locations lie in the box up to rounding (1e-7 degrees); 'around the centre' means every point is a vertex of the random polygon shifted to the centre (the polygon's radius is an exponential random number and has no bound).")
note("C16","The JSON and XML decoders are assumed to return an error or any document whatsoever (null parts included) and not to panic.")
