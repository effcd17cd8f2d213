NA = {
    'P24': 'Contracts verified function by function describe sequential executions; data-race freedom over all interleavings of boost::asio threads needs a concurrency logic that no available verifier offers for this C++ code.',
    'P25': 'Liveness over unbounded schedules (eventual closing) is not expressible as a pre/postcondition; the safety part (the time-out is armed and forces the shutdown) is under P14.',
    'P26': 'The TLS and WebSocket engines (OpenSSL, Boost.Beast) are the mechanism; their behaviour would have to be assumed wholesale, so a contract proof would only restate P10-P14.',
    'P27': 'The KCP dependency is not present, so the code cannot be compiled here and no verifier can read it.',
}
