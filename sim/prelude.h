// Force-included when the library is compiled for the simulator.
#ifdef __cplusplus
extern "C" void sim_pause() noexcept;
#endif
