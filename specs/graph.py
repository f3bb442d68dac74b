import torch
from beer.graph import Arc
from beer.graph import CompiledGraph
from beer.graph import State
from beer.graph import _show_graph
from beer.graph import _state_name


@spec('P12', 'beer.graph:_state_name')
def _(symbols, state_id):
    try:
        name = str(symbols[state_id])
    except KeyError:
        name = str(state_id)
    return name


@spec('P12', 'beer.graph:_show_graph')
def _(graph):
    import graphviz
    dot = graphviz.Digraph()
    dot.graph_attr['rankdir'] = 'LR'
    for state_id in graph.states():
        attrs = {'shape': 'circle'}
        if state_id == graph.start_state:
            attrs.update(penwidth='2.0')
        if state_id == graph.end_state:
            attrs.update(shape='doublecircle')
        dot.node(_state_name(graph.symbols, state_id), **attrs)
    for arc in graph.arcs():
        dot.edge(_state_name(graph.symbols, arc.start), _state_name(graph.symbols, arc.end), label=str(round(arc.weight, 3)))
    return graphviz.Source(dot.source)._repr_svg_()


@spec('P12', 'beer.graph:Graph._repr_svg_')
def _(self):
    return _show_graph(self)


@spec('P12', 'beer.graph:Graph.states')
def _(self):
    return self._states.keys()


@spec('P12', 'beer.graph:Graph.state_from_id')
def _(self, state_id):
    return self._states[state_id]


@spec('P12', 'beer.graph:Graph.arcs')
def _(self, state_id=None, incoming=False):
    for arc in self._arcs:
        if not incoming:
            if arc.start == state_id or state_id is None:
                yield arc
        elif arc.end == state_id or state_id is None:
            yield arc


@spec('P12', 'beer.graph:Graph.add_state')
def _(self, pdf_id=None):
    state_id = self._state_count
    self._state_count += 1
    new_state = State(state_id, pdf_id)
    self._states[new_state.id] = new_state
    return state_id


@spec('P12', 'beer.graph:Graph.add_arc')
def _(self, start, end, weight=1.0):
    new_arc = Arc(start, end, weight)
    self._arcs.add(new_arc)
    return new_arc


@spec('P12', 'beer.graph:Graph.normalize')
def _(self):
    for state_id in self.states():
        sum_out_weights = 0.0
        for arc in self.arcs(state_id):
            sum_out_weights += arc.weight
        for arc in self.arcs(state_id):
            arc.weight /= sum_out_weights


@spec('P12', 'beer.graph:Graph.replace_state', types={'graph': 'beer.graph:Graph'})
def _(self, old_state_id, graph):
    new_states = {}
    for state_id in graph.states():
        pdf_id = graph._states[state_id].pdf_id
        new_state_id = self.add_state(pdf_id=pdf_id)
        new_states[state_id] = new_state_id
    for arc in graph.arcs():
        self.add_arc(new_states[arc.start], new_states[arc.end], arc.weight)
    to_delete = []
    new_arcs = []
    for arc in self.arcs(old_state_id):
        to_delete.append(arc)
        end = arc.end if arc.end != old_state_id else new_states[graph.start_state]
        new_arcs.append((new_states[graph.end_state], end, arc.weight))
    for arc in self.arcs(old_state_id, incoming=True):
        if arc.start == old_state_id:
            continue
        to_delete.append(arc)
        new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
    for start, end, weight in new_arcs:
        self.add_arc(start, end, weight)
    for arc in to_delete:
        self._arcs.remove(arc)
    del self._states[old_state_id]


@spec('P12', 'beer.graph:Graph.find_next_pdf_ids')
def _(self, start_state, init_weight=1.0):
    to_explore = [(arc, init_weight, {start_state}) for arc in self.arcs(start_state)]
    while to_explore:
        arc, weight, visited = to_explore.pop()
        pdf_id = self._states[arc.end].pdf_id
        if pdf_id is not None:
            yield (arc.end, weight * arc.weight)
        elif arc.end not in visited:
            to_explore += [(next_arc, weight * arc.weight, visited | {arc.end}) for next_arc in self.arcs(arc.end)]


@spec('P12', 'beer.graph:Graph.find_previous_pdf_ids')
def _(self, start_state, init_weight=1.0):
    to_explore = [(arc, init_weight, {start_state}) for arc in self.arcs(start_state, incoming=True)]
    while to_explore:
        arc, weight, visited = to_explore.pop()
        pdf_id = self._states[arc.start].pdf_id
        if pdf_id is not None:
            yield (arc.start, weight * arc.weight)
        elif arc.start not in visited:
            to_explore += [(prev_arc, weight * arc.weight, visited | {arc.start}) for prev_arc in self.arcs(arc.start, incoming=True)]


@spec('P12', 'beer.graph:Graph.compile')
def _(self):
    tot_n_states = 0
    pdf_id_mapping = []
    state2pdf_id = {}
    for state_id, state in self._states.items():
        if state.pdf_id is not None:
            state2pdf_id[state_id] = tot_n_states
            pdf_id_mapping.append(state.pdf_id)
            tot_n_states += 1
    init_probs = torch.zeros(tot_n_states)
    final_probs = torch.zeros(tot_n_states)
    trans_probs = torch.zeros(tot_n_states, tot_n_states)
    for state_id, weight in self.find_next_pdf_ids(self.start_state, 1.0):
        init_probs[state2pdf_id[state_id]] += weight
    init_probs /= init_probs.sum()
    for state_id, weight in self.find_previous_pdf_ids(self.end_state, 1.0):
        final_probs[state2pdf_id[state_id]] += weight
    final_probs /= final_probs.sum()
    for arc in self.arcs():
        pdf_id1 = self._states[arc.start].pdf_id
        pdf_id2 = self._states[arc.end].pdf_id
        weight = arc.weight
        if pdf_id1 is None:
            continue
        pdf_id1 = state2pdf_id[arc.start]
        if pdf_id2 is None:
            for state_id, weight in self.find_next_pdf_ids(arc.end, weight):
                trans_probs[pdf_id1, state2pdf_id[state_id]] += weight
        else:
            trans_probs[pdf_id1, state2pdf_id[arc.end]] += weight
    for dim in range(len(trans_probs)):
        diag = trans_probs[dim, dim].clone()
        off_diag = trans_probs[dim, :].sum() - diag
        if diag > 0.0 and off_diag > 0:
            norms = off_diag
            trans_probs[dim, :] /= norms / (1 - diag)
            trans_probs[dim, dim] = diag
    return CompiledGraph(init_probs.log(), final_probs.log(), trans_probs.log(), pdf_id_mapping)


@spec('P13', 'beer.graph:CompiledGraph.__init__')
def _(self, init_log_probs, final_log_probs, trans_log_probs, pdf_id_mapping=None):
    super().__init__()
    self.register_buffer('init_log_probs', init_log_probs)
    self.register_buffer('final_log_probs', final_log_probs)
    self.register_buffer('trans_log_probs', trans_log_probs)
    self.pdf_id_mapping = pdf_id_mapping


@spec('P13', 'beer.graph:CompiledGraph.__repr__')
def _(self):
    return '<CompiledGraph>'


@spec('P13', 'beer.graph:CompiledGraph.n_states')
def _(self):
    return len(self.trans_log_probs)


@spec('P13', 'beer.graph:CompiledGraph._baum_welch_forward')
def _(self, llhs):
    log_trans_mat = self.trans_log_probs
    log_alphas = torch.zeros_like(llhs) - float('inf')
    log_alphas[0] = llhs[0] + self.init_log_probs
    for i in range(1, llhs.shape[0]):
        log_alphas[i] = llhs[i]
        log_alphas[i] += torch.logsumexp(log_alphas[i - 1] + log_trans_mat.t(), dim=1).view(-1)
    return log_alphas


@spec('P13', 'beer.graph:CompiledGraph._baum_welch_backward')
def _(self, llhs):
    log_trans_mat = self.trans_log_probs
    log_betas = torch.zeros_like(llhs) - float('inf')
    log_betas[-1] = self.final_log_probs
    for i in reversed(range(llhs.shape[0] - 1)):
        log_betas[i] = torch.logsumexp(log_trans_mat + llhs[i + 1] + log_betas[i + 1], dim=1).view(-1)
    return log_betas


@spec('P13', 'beer.graph:CompiledGraph.posteriors')
def _(self, llhs, trans_posteriors=False):
    log_alphas = self._baum_welch_forward(llhs)
    log_betas = self._baum_welch_backward(llhs)
    lognorm = torch.logsumexp(log_alphas + log_betas, dim=1)
    state_posts = (log_alphas + log_betas - lognorm[:, None]).exp()
    if trans_posteriors:
        log_A = self.trans_log_probs
        log_xi = log_alphas[:-1, :, None] + log_A[None] + (llhs + log_betas)[1:, None, :]
        log_xi = log_xi.view(-1, len(log_A) * len(log_A))
        lnorm = torch.logsumexp(log_xi, dim=1)
        trans_posts = (log_xi - lnorm[:, None]).exp()
        trans_posts = torch.where(trans_posts != trans_posts, torch.zeros_like(trans_posts), trans_posts)
        trans_posts = trans_posts.view(-1, len(log_A), len(log_A))
        retval = (state_posts, trans_posts)
    else:
        retval = state_posts
    return (retval, lognorm.mean())


@spec('P13', 'beer.graph:CompiledGraph.best_path')
def _(self, llhs):
    init_log_prob = self.init_log_probs
    backtrack = torch.zeros_like(llhs, dtype=torch.long, device=llhs.device)
    omega = llhs[0] + init_log_prob
    log_trans_mat = self.trans_log_probs
    for i in range(1, llhs.shape[0]):
        hypothesis = omega + log_trans_mat.t()
        backtrack[i] = torch.argmax(hypothesis, dim=1)
        omega = llhs[i] + hypothesis[range(len(log_trans_mat)), backtrack[i]]
    path = [torch.argmax(omega + self.final_log_probs)]
    for i in reversed(range(1, len(llhs))):
        path.insert(0, backtrack[i, path[0]])
    return torch.LongTensor(path, device=llhs.device)
