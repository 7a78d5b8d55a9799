"""Construction of the real bundles from a scenario."""
import jax

from sim import core


def make_bundle(scn, logpdf, logprior=None, key=None, **kw):
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    args = dict(n_chains=scn["n_chains"], n_dims=scn["n_dims"], logpdf=logpdf, n_local_steps=scn["n_local"],
                n_global_steps=scn["n_global"], n_training_loops=scn["train"], n_production_loops=scn["prod"],
                n_epochs=scn["epochs"], chain_batch_size=scn.get("batch", 0), rq_spline_hidden_units=[3],
                rq_spline_n_bins=2, rq_spline_n_layers=2, batch_size=scn.get("train_batch", 64),
                n_max_examples=scn.get("n_max", 50), local_thinning=scn.get("thin_l", 1),
                global_thinning=scn.get("thin_g", 1), learning_rate=scn.get("lr", 1e-2),
                mala_step_size=scn.get("step", 0.1), n_NFproposal_batch_size=scn.get("nf_batch", 10000))
    args["verbose"] = core.flag(scn, "verbose")
    args.update(kw)
    key = jax.random.PRNGKey((scn["seed"] >> 16) & 0xFFFF) if key is None else key
    if not scn["pt"]:
        return RQSpline_MALA_Bundle(key, **args)
    args.update(n_temperatures=scn["n_temps"], max_temperature=scn.get("max_temp", 5.0),
                n_tempered_steps=scn["n_tempered"], history_window=scn.get("window", 100))
    if logprior is not None:
        args["logprior"] = logprior
    return RQSpline_MALA_PT_Bundle(key, **args)
