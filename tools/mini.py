"""Run a model given as YAML text (or a plain dict) and CSV texts, through the same services the CLI uses."""
from __future__ import annotations

import re
from io import StringIO

import yaml

_DATE = re.compile(r"'(\d{4}-\d\d-\d\d(?: \d\d:\d\d:\d\d)?)'")


def dump_yaml(data: dict) -> str:
    """YAML text of a JSON-like dict; strings that look like dates become YAML dates."""
    text = yaml.safe_dump(data, sort_keys=False, default_flow_style=False, width=10_000)
    return _DATE.sub(r"\1", text)


def make_resource_service(configuration, resources: dict[str, str]):
    from libecalc.common.errors.exceptions import InvalidResourceException
    from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
    from libecalc.presentation.yaml.resource_service import InvalidResource, ResourceService
    from libecalc.presentation.yaml.yaml_entities import MemoryResource

    class Service(ResourceService):
        def get_time_series_resources(self):
            out, errors = {}, []
            for name in configuration.timeseries_resource_names:
                if name not in resources:
                    continue
                try:
                    res = MemoryResource.from_string(resources[name], allow_nans=True)
                    out[name] = TimeSeriesResource(res).validate()
                except InvalidResourceException as e:
                    errors.append(InvalidResource(message=str(e), resource_name=name, file_context=None))
            return out, errors

        def get_facility_resources(self):
            out, errors = {}, []
            for name in configuration.facility_resource_names:
                if name not in resources:
                    continue
                try:
                    out[name] = MemoryResource.from_string(resources[name], allow_nans=False)
                except InvalidResourceException as e:
                    errors.append(InvalidResource(message=str(e), resource_name=name, file_context=None))
            return out, errors

    return Service()


def make_model(source: str | dict, resources: dict[str, str] | None = None, name: str = "model"):
    from libecalc.presentation.yaml.model import YamlModel
    from libecalc.presentation.yaml.yaml_entities import ResourceStream
    from libecalc.presentation.yaml.yaml_models.yaml_model import ReaderType, YamlConfiguration

    if isinstance(source, dict):
        source = dump_yaml(source)
    configuration = YamlConfiguration.Builder.get_yaml_reader(ReaderType.PYYAML).get_validator(
        main_yaml=ResourceStream(stream=StringIO(source), name=name), enable_include=True
    )
    return YamlModel(
        configuration=configuration, resource_service=make_resource_service(configuration, resources or {})
    )


class Run:
    """An evaluated model and its asset result, with convenient access by component name."""

    def __init__(self, source, resources=None, evaluate=True):
        from libecalc.presentation.json_result.mapper import get_asset_result

        self.model = make_model(source, resources).validate_for_run()
        if evaluate:
            self.model.evaluate_energy_usage()
            self.result = get_asset_result(self.model)
            self.asset = self.result.component_result
            self.by_name = {c.name: c for c in self.result.sub_components}

    def models_of(self, name: str):
        return [m for m in self.result.models if m.name == name]


def csv_text(columns: dict[str, list]) -> str:
    names = list(columns)
    rows = zip(*columns.values())
    return "\n".join([",".join(names)] + [",".join(str(x) for x in row) for row in rows]) + "\n"
