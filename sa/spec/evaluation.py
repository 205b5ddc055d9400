"""Reference model of the evaluation statistics."""
from typing import Sequence
import datetime as dt
import shutil
import tempfile
import time
import dm_env
from etils import epath
from putting_dune import plotting_utils
from putting_dune import simulator_observers
from putting_dune.agents import agent_lib
from putting_dune.eval_lib import EvalResult, AggregateEvalResults


def aggregate_results(results: Sequence[EvalResult]):
  n = 0
  actions = 0
  agent = 0.0
  environment = 0.0
  reward = 0.0
  for r in results:
    if r.reached_goal:
      n += 1
      actions += r.num_actions_taken
      agent += r.agent_seconds_to_goal
      environment += r.environment_seconds_to_goal
      reward += r.total_reward
  d = max(n, 1)
  return AggregateEvalResults(n / len(results), actions / d, agent / d, environment / d, reward / d)


def evaluate(agent, env, eval_suite, *, timeout=dt.timedelta(minutes=10), video_save_dir=None):
  agent.set_mode(agent_lib.AgentMode.EVAL)
  results = []
  if video_save_dir is not None:
    events = simulator_observers.EventObserver()
    env.sim.add_observer(events)
  for seed in eval_suite.seeds:
    n = 0
    reward = 0.0
    agent_time = dt.timedelta(seconds=0)
    env_time = dt.timedelta(seconds=0)
    env.seed(seed)
    ts = env.reset()
    env_time += env.last_microscope_observation.elapsed_time
    while agent_time + env_time < timeout:
      start = time.perf_counter()
      action = agent.step(ts)
      delta = time.perf_counter() - start
      ts = env.step(action)
      agent_time += dt.timedelta(seconds=delta)
      env_time += env.last_microscope_observation.elapsed_time
      n += 1
      reward += ts.reward
      if ts.last():
        break
    reached = ts.step_type == dm_env.StepType.LAST and ts.discount == 0.0
    results.append(EvalResult(
        seed=seed, reached_goal=reached, num_actions_taken=n,
        agent_seconds_to_goal=agent_time.total_seconds() if reached else float('nan'),
        environment_seconds_to_goal=env_time.total_seconds() if reached else float('nan'),
        total_reward=reward))
    if video_save_dir is not None:
      epath.Path(video_save_dir).mkdir(parents=True, exist_ok=True)
      with tempfile.NamedTemporaryFile(suffix='.gif') as src:
        anim = plotting_utils.generate_video_from_simulator_events(events.events, env.goal.goal_position_material_frame)
        anim.save(src.name)
        with (epath.Path(video_save_dir) / f'{seed}.gif').open('wb') as dest:
          shutil.copyfileobj(src, dest)
  if video_save_dir is not None:
    env.sim.remove_observer(events)
  return results
