t("C01", "online reference-model monitor over generated GEMM workloads",
  "Every entry of tens of thousands of generated products per run is compared with an independent exact sum, on six "
  "back ends (ARM under qemu-user). Assurance is over the executions produced; shapes are sampled, not enumerated.")
t("C02", "online reference-model monitor over generated output pipelines",
  "Every entry is compared with an independent 64-bit evaluation of the pipeline; tanh within a derived tolerance. "
  "Parameter values are sampled over all magnitudes, positions over all register-block residues.")
t("C10", "exact-arithmetic monitor, exhaustive over 16-bit operands, with UBSan",
  "All 2^32 pairs of 16-bit operands for every binary primitive; 32-bit operands by edge values and random sampling.")
t("C11", "differential per-lane monitor (vector against scalar execution)",
  "SSE4, AVX2, NEON (64- and 32-bit, under qemu-user); lane values sampled over edges and all magnitudes. MSA and WASM "
  "back ends cannot be executed here.")
t("C12", "accuracy and range monitor against double precision, exhaustive for 16 bits, with UBSan",
  "All 16-bit inputs of 13 formats; 32-bit inputs sampled in quick, four formats swept over all 2^32 inputs in thorough.")

t("C03", "differential monitor across thread counts, cache tunings, context histories, poisoned scratch memory and schedules",
  "Every product is run many ways and all results are compared bit for bit; scratch memory is poisoned between runs and "
  "worker schedules are perturbed at every lock, wait and wake-up. Assurance is over the executions produced.")
t("C04", "AddressSanitizer and UBSan, guard pages, canaries and valgrind over generated GEMM workloads",
  "Operands, parameters, results and scratch blocks lie against inaccessible pages; padding bytes are canaried; "
  "uninitialised reads by valgrind memcheck on a smaller workload. ARM assembly is watched by guard pages only.")
t("C05", "ThreadSanitizer and result monitor over concurrent GEMM workloads with perturbed schedules",
  "Race detection on the interleavings produced (x86 portable, SSE4 and AVX2); results compared with sequential "
  "execution on every back end.")
t("C06", "online exactly-once checker over pool event traces, with schedule perturbation, spurious wake-ups and ThreadSanitizer",
  "Batches of all growth patterns; event log of every task, completion and storage use; delays and spurious wake-ups "
  "injected at every synchronisation call.")
t("C07", "online trace checker for counters and waits with injected delays and spurious wake-ups, and ThreadSanitizer",
  "Every decrement, wait, change and wake-up recorded and checked against the specification; hangs caught by a watchdog.")
t("C08", "online checker of the allocator's observable contract over generated histories, with AddressSanitizer",
  "Random and adversarial reservation histories; addresses, contents, ownership and system allocation events checked.")
t("C09", "online reference-model monitor over the legacy entry points, sequential and concurrent, with sanitizers",
  "All transpose combinations, strides and parameters sampled; concurrent callers with thread-limit changes and frees.")
t("C13", "online reference-model monitor with guard pages over the ARM meta routines under qemu-user, AddressSanitizer on 32-bit ARM",
  "Products through every executor and entry point compared with exact results; depth up to the supported 2048.")
t("C14", "online reference-model monitor with guard pages over streams and transforms under qemu-user",
  "Every lane count and leftover of the streams and every remainder of the transforms, element by element. Two genuine "
  "defects in generated kernels are listed as known findings.")
t("C15", "ThreadSanitizer, AddressSanitizer and an offline checker of the printed profile against the recorded label history",
  "Threads come, go and move through labels while a fast-ticking profiler samples; every reported path must have existed, "
  "held stacks must be reported exactly, products must stay exact. Sampling instants are those the runs produced.")
t("C16", "online reference-model monitor through a layout-checking kernel over shipped and random kernel formats, with sanitizers",
  "Our kernel reads packed data strictly by the documented layout; formats are the shipped ones plus random ones per seed "
  "(cell depth dividing 16, the packing register size). Int8 source operands only for the NEON layouts that accept them.")
t("C17", "online monitor of tasks, running threads and thread creation over generated products and limit histories",
  "A monitoring pool catches every repeated or missing write of an entry; thread creation, joining and concurrency are "
  "recorded at the pthread interface. Shapes and limits are sampled.")
t("C18", "resource-conservation monitor (scratch, threads, operator new) and LeakSanitizer over context histories",
  "Counters at the allocation and pthread interfaces must return to their starting point after destruction and stand still "
  "while known products repeat. Histories are sampled.")
t("C19", "exhaustive fault injection over the scratch allocations of generated histories, outcome monitor",
  "Every allocation point of each generated history is failed in turn; the child must stop by abort with a diagnostic.")
