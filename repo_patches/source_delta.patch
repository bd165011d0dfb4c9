From 45abd0d02561f85b1594da48aa44be6c80992620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 01/12] fix: apply the dynamics registered for each decay chain

Builders were looked up by resonance name, so that a builder registered for a
chain was ignored if an earlier chain had a resonance with the same name (other
LS coupling or subsystem). Registering by name now covers all those chains.
---
 src/ampform_dpd/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..49f65a8 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -184,7 +184,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -452,8 +452,13 @@ class DynamicsConfigurator:
         self.__dynamics_builders: dict[ThreeBodyDecayChain, DynamicsBuilder] = {}
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
-        chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        if isinstance(identifier, str):
+            name = self.__get_chain(identifier).resonance.name
+            chains = [c for c in self.__decay.chains if c.resonance.name == name]
+        else:
+            chains = [self.__get_chain(identifier)]
+        for chain in chains:
+            self.__dynamics_builders[chain] = builder
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
-- 
2.43.0


From 28756be4917d9c303e4d002c68f74a853b0c02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 02/12] fix: convert qrules particles that have no defined
 parity

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..2af8df9 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From cf775197dee90919d12b6c4e00acf27bebb3acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 03/12] fix: take LS couplings from the interaction nodes by
 their ID

---
 src/ampform_dpd/adapter/qrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 2af8df9..24cbae9 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,7 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From a7aeeac6b58598d0eb713eaea7521bfbf7e240f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 04/12] fix: use final-state spins in the recoupling of
 serialized LS vertices

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..1516ef6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From 9671b029a7b12b850acbea6e7f5d57b1850f938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 05/12] fix: evaluate serialized production form factors at the
 squared parent mass

---
 src/ampform_dpd/io/serialization/dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..7dab7f5 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -80,11 +80,15 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
     if function_type == "BlattWeisskopf":
         node = vertex["node"]
         s = to_mandelstam_symbol(node)
-        m1, m2 = (to_mass_symbol(i) for i in node)
+        m1, m2 = (
+            to_mass_symbol(i) if isinstance(i, int) else sp.sqrt(to_mass_symbol(i))
+            for i in node
+        )
         if all(isinstance(i, int) for i in node):
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
             initial_state = get_initial_state(model)
+            s **= 2
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
         return DefinedExpression(
-- 
2.43.0


From eedfa04c83e702b0d8fef3b7e408d568499c789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 06/12] fix: give each channel of a serialized multichannel
 lineshape its own parameters

---
 src/ampform_dpd/io/serialization/dynamics.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index 7dab7f5..60c6e0c 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -157,14 +157,22 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        mi1 = sp.Symbol(
+            Rf"m_{{a,{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
+        mi2 = sp.Symbol(
+            Rf"m_{{b,{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
+        di = sp.Symbol(
+            Rf"R_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From db8784816c87fa56fe34a0b5807368bbb325ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 07/12] fix: round masses and widths in Markdown tables

---
 src/ampform_dpd/io/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..7bc7d02 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -172,8 +172,8 @@ def _as_resonance_markdown_table(items: Sequence[Particle | State]) -> str:
             f"`{particle.name}`",
             f"${particle.latex}$",
             Rf"${aslatex(particle, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * particle.mass):,.0f}",
-            f"{int(1e3 * particle.width):,.0f}",
+            f"{1e3 * particle.mass:,.0f}",
+            f"{1e3 * particle.width:,.0f}",
         ]
         if render_index:
             row_items.insert(0, particle.index if isinstance(particle, State) else " ")
@@ -198,8 +198,8 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         row_items: list = [
             Rf"${chain.resonance.latex} \to {child1} {child2}$",
             Rf"${aslatex(chain.resonance, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * chain.resonance.mass):,.0f}",
-            f"{int(1e3 * chain.resonance.width):,.0f}",
+            f"{1e3 * chain.resonance.mass:,.0f}",
+            f"{1e3 * chain.resonance.width:,.0f}",
         ]
         if chain.outgoing_ls is not None:
             row_items.append(chain.outgoing_ls.L)
-- 
2.43.0


From bc0392317c3ea70c0f9b91ed02b8bad42acd66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 08/12] fix: keep columns of Markdown tables aligned if only
 some chains have LS couplings

---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index 7bc7d02..c38d3e8 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_decay_l = any(c.outgoing_ls is not None for c in decay_chains)
+    render_production_l = any(c.incoming_ls is not None for c in decay_chains)
+    if render_decay_l:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_production_l:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{1e3 * chain.resonance.mass:,.0f}",
             f"{1e3 * chain.resonance.width:,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_decay_l:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_production_l:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From cfc79bcd0f99e63bc3a7628870709dd8b0289eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 09/12] fix: return independent functions from cached lambdify

---
 src/ampform_dpd/io/cached.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..19ff34e 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,13 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    cached_function = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    # The cached function is mutable: hand out a copy with its own parameter values.
+    return ParametrizedBackendFunction(
+        cached_function.function,
+        cached_function.argument_order,
+        cached_function.parameters,
+    )
 
 
 @cache
-- 
2.43.0


From 2d82ac4cd3f40a9bda331bae208b0afc2c2bb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 10/12] fix: relabel states of partial transitions along with
 their edges

---
 src/ampform_dpd/adapter/qrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 24cbae9..c201a4e 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -291,10 +291,11 @@ _Transition = TypeVar("_Transition", FrozenTransition, MutableTransition)
 @_impl_normalize_state_ids.register(FrozenTransition)
 @_impl_normalize_state_ids.register(MutableTransition)
 def _(obj: _Transition) -> _Transition:
+    mapping = {old: new for new, old in enumerate(sorted(obj.topology.edges))}
     return attrs.evolve(
         obj,
         topology=_impl_normalize_state_ids(obj.topology),
-        states={new: obj.states[old] for new, old in enumerate(sorted(obj.states))},
+        states={mapping[old]: obj.states[old] for old in sorted(obj.states)},
     )
 
 
-- 
2.43.0


From 87e060fc67f0c466febd2d47fd08027b4477b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 11/12] fix: give deserialised chains with the same name and
 helicities their own weight

---
 src/ampform_dpd/io/serialization/amplitude.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 1516ef6..f04fe38 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -131,6 +131,10 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         dynamics *= formulate_form_factor(vertex, model)
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
+    previous_weights = [_get_weight(c, to_latex)[0] for c in chain_defs[:chain_idx]]
+    n_repetitions = previous_weights.count(weight)
+    if n_repetitions:  # chains can have the same name and helicities
+        weight = sp.Symbol(f"{weight.name[:-1]}; {n_repetitions + 1}}}")
     # -----------------------
     (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
-- 
2.43.0


From b6b3a477d61665a9263572d375d8f1489b55161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 12/12] fix: filter minimal LS couplings of one-pass iterables

filter_min_ls() accepts any iterable of transitions, but went over it more than
once, so that it returned an empty tuple for an iterator or generator.
---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index c201a4e..0b20908 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0

