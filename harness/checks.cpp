#include "checks.hpp"
#define ALLCFG {"def", "asym", "big", "tiny", "huge", "wide"}
std::vector<Check> g_checks = {
    {"C01", "one slave (any registration layout), 1-6 frames, mostly valid reads of any function/address/quantity mixed with writes, refused and foreign frames, application changing its data; non-trivial: at least one fully valid read was answered and compared byte for byte", {"def", "big", "asym", "huge", "big", "tiny", "def", "big", "wide"}, 60000, 1500000, run_C01},
    {"C02", "one slave, 1-6 frames, mostly valid writes; non-trivial: at least one valid write was compared (reply and every application variable)", {"def", "big", "asym", "huge", "big", "tiny", "def", "big", "wide"}, 60000, 1500000, run_C02},
    {"C03", "one slave, 1-6 frames, mostly requests that must be refused (all function codes, quantities, byte counts, values, addresses, unregistered items); non-trivial: at least one refusal was compared", {"def", "big", "asym", "huge", "big", "tiny", "def", "asym", "wide"}, 60000, 1500000, run_C03},
    {"C04", "one slave, 1-8 frames: wrong CRC, foreign, gap, truncated with valid CRC, noise, mixed with valid traffic; non-trivial: at least one such frame was judged", {"def", "big", "asym", "def", "big", "tiny", "def", "asym"}, 60000, 1500000, run_C04},
    {"C05", "histories of 1-14 frames of every kind (damage, gaps, noise, noise during replies, overflow, thousands of repetitions) under random poll schedules, every frame compared with a reference slave, ending with a probe request; non-trivial: history of at least two frames before the probe", {"def", "big", "asym", "def", "big", "tiny", "def", "asym"}, 50000, 1000000, run_C05},
    {"C06", "1-6 frames with driver events interrupting the poll function at random instrumented positions, drivers finishing inside send(), noise during replies; non-trivial: an event actually interrupted a library call", {"def", "big", "asym", "def", "big", "tiny", "def", "o0"}, 60000, 1500000, run_C06},
    {"C24", "six library builds with different table sizes (1..65535), requests placed around the end of each table; non-trivial: a request ending within two items of the end of its table", ALLCFG, 16000, 500000, run_C24},
    {"C07", "either a slave answering 1-5 requests (any device address 0..255) or a master executing 1-5 requests with retries; every frame handed to a driver is checked for address, CRC (bitwise reference) and the length its content implies; non-trivial: a slave reply longer than an exception or any master request", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 100000, 2000000, run_C07},
    {"C08", "valid requests to the slave / valid responses to the master damaged by 1 bit, 2 bits, an odd number of bits or a burst of up to 16 bits anywhere in the frame; non-trivial: a damaged frame was fed", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 120000, 2400000, run_C08},
    {"C09", "1-6 requests of all eight kinds with any slave, address, legal quantity and data, mixed outcomes in between; the caller overwrites its buffers (new ones or always the same) right after the call; non-trivial: a frame of a request of more than eight items or one following another request was compared", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 120000, 2400000, run_C09},
    {"C10", "bursts of legal and illegal requests (quantity 0 or above the limit), also when the queue is full and from callbacks, legal ones executed to their end; non-trivial: both legal and illegal requests occur", {"def", "asym", "big", "tiny", "def", "asym", "big", "huge", "wide/20"}, 15000, 600000, run_C10},
    {"C11", "bursts of requests issued at every stage of earlier ones and from inside callbacks, with good, exception, silent, damaged and mismatching answers; return codes, order and overlap compared with a queue model; sometimes the whole case repeated on the same master; non-trivial: more requests than buffers, or the queue was full", {"def", "asym", "big", "tiny", "def", "asym", "big", "huge", "wide/20"}, 12000, 500000, run_C11},
    {"C12", "1-4 requests, mostly answered properly at once or after retries; non-trivial: a valid read response was delivered and every callback compared", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 200000, 4000000, run_C12},
    {"C13", "1-4 requests, mostly confirmed writes and exception responses; non-trivial: a confirmation or exception was compared", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 300000, 6000000, run_C13},
    {"C14", "1-3 requests answered by intact responses that do not fit (other function, byte count, length, echoed fields, exception for another function, echo of the request); non-trivial: such a response was sent to a waiting master", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 200000, 4000000, run_C14},
    {"C15", "1-5 requests under arbitrary line behaviour (answers, damage, gaps, noise, mismatches, late answers, random bytes in every state) and arbitrary poll/tick schedules; non-trivial: a non-plain schedule or more than one request", {"def", "asym", "big", "def", "tiny", "asym", "big", "def", "wide/10"}, 30000, 700000, run_C15},
    {"C16", "1-4 requests, mostly unanswered, with answers arriving shortly before or after the limit, foreign traffic and noise, under arbitrary poll/tick schedules; non-trivial: a request to a silent slave was judged", {"def", "asym", "big", "def", "tiny", "asym", "big", "def", "wide/10"}, 150000, 3000000, run_C16},
    {"C17", "1-4 requests answered by sequences of CRC-damaged, gap-damaged, good and missing responses; non-trivial: a request whose first answer is damaged was judged", {"def", "asym", "big", "def", "tiny", "asym", "big", "def", "wide/10"}, 15000, 700000, run_C17},
    {"C18", "1-3 requests with 1-4 intact frames of other slaves before the answer (or silence); non-trivial: a foreign frame arrived while waiting", {"def", "asym", "big", "def", "tiny", "asym", "big", "def", "wide/20"}, 90000, 1800000, run_C18},
    {"C19", "1-2 probe requests executed on a fresh master and again after a random history (1-8 requests of all outcomes, possibly repeated, noise on the idle line) with the same schedule: everything transmitted and reported must be equal; non-trivial: the comparison took place", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 20000, 400000, run_C19},
    {"C25", "1-4 requests with driver events and ticks interrupting poll and request functions at random instrumented positions and drivers finishing inside send(); non-trivial: an event actually interrupted a call", {"def", "asym", "big", "def", "tiny", "asym", "o0", "def"}, 200000, 4000000, run_C25},
    {"C20", "5-4000 arbitrary operations (any bytes, events, API calls with any arguments, re-initialisation, registration, interrupts, requests from callbacks) on master and slave under AddressSanitizer and UndefinedBehaviorSanitizer with a loop bound; non-trivial: at least eight bytes were received", {"def", "asym", "big", "tiny", "huge", "wide/2"}, 60000, 1500000, run_C20},
    {"C21", "library master connected to library slave over both driver interfaces, 1-6 requests (valid, refused, other address), random poll schedules on both sides, replies damaged on the line up to the retry limit; non-trivial: a request to the slave was compared end to end", {"def", "asym", "big", "def", "tiny", "asym", "big", "huge"}, 75000, 1500000, run_C21},
    {"C22", "random history cut off anywhere, re-initialisation with new parameters, then requests compared with a reference slave / the same run on a fresh master; non-trivial: a re-initialised device was compared", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 150000, 3000000, run_C22},
    {"C23", "operation lists recorded from a master alone and a slave alone, merged at random (calls of one interrupted by events and polls of the other, also in an unoptimised build), traces and data compared with the solo runs; non-trivial: every case", {"def", "asym", "big", "def", "tiny", "o0", "big", "def"}, 80000, 1600000, run_C23},
    {"C26", "master or slave used before initialisation and / or initialised in an unsupported mode (also after service), under random traffic, events, polls, ticks and requests, then initialised in RTU mode and compared with a reference slave / a fresh master; non-trivial: every case", {"def", "asym", "big", "def", "tiny", "asym", "big", "def"}, 100000, 2000000, run_C26},
    {"C27", "one slave, 2-6 frames (mostly reads and writes), registrations before and between them and while they are received, repeated, withdrawn, aliased or beyond the tables, and re-initialisations; replies and all application variables compared with a model of what refers to what; non-trivial: something was registered during service", {"def", "big", "asym", "def", "big", "tiny", "asym", "wide/20"}, 200000, 3000000, run_C27},
    {"C28", "arbitrary operations, slave frames or master requests with driver events interrupting every kind of call and drivers finishing inside send(): every transmission and callback must come from inside the role's own poll function, application data may change only inside the slave's; non-trivial: the device transmitted or requests ended", {"def", "asym", "big", "tiny", "def", "o0", "big", "def"}, 60000, 1500000, run_C28},
    {"C29", "a master fresh from its initialisation or after 1-3 finished requests of every outcome; then 1-10 idle actions: proper answers and exceptions to the last request, foreign and damaged frames, noise, single driver events (also in the middle of a poll), polls, ticks, refused requests; nothing may be transmitted or reported; then 1-2 requests compared with the expected outcome; non-trivial: every case that gets to them", {"def", "asym", "big", "tiny", "def", "asym", "o0", "def"}, 60000, 1500000, run_C29},
};
